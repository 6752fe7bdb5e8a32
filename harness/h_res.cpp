// C21: blocks and descriptors held by readers, writers and containers, through construction, failure, use, moving and destruction.
#include "common.hpp"
#include "battery.hpp"
#include "oom.hpp"
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>
#include <dirent.h>
#include <sys/stat.h>
using namespace W;
using FG::File;
using copc::laz::LazFileReader;
using copc::laz::LazFileWriter;
using copc::laz::LazReader;
using copc::laz::LazWriter;

static int open_fds()
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (dirent *e = d ? readdir(d) : nullptr)
    {
        // ASan's memory watcher opens files of /proc from a thread of its own
        char to[256];
        ssize_t k = readlinkat(dirfd(d), e->d_name, to, sizeof(to));
        if (k > 0 && !(k >= 5 && !memcmp(to, "/proc", 5)))
            n++;
    }
    if (d)
        closedir(d);
    return n;
}

// What a case works on
struct World
{
    File f;
    std::string laz;     // a LAZ image
    std::string damaged; // f or laz with damage
    std::vector<std::string> paths;
    Script script;
    std::string dir;
};
static std::string put(const World &w, const char *name, const std::string &img)
{
    std::string p = w.dir + "/" + name;
    std::ofstream o(p, std::ios::binary);
    o << img;
    return p;
}
static World make_world(Rng &r)
{
    World w;
    w.dir = H::tmpdir + "/r" + std::to_string(getpid());
    mkdir(w.dir.c_str(), 0755);
    FG::Opt o;
    o.spatial = true;
    o.built = r.chance(60);
    o.maxn = 10;
    w.f = FG::make(r, o);
    w.script = rand_script(r, true);
    if (w.script.ops.size() > 8)
        w.script.ops.resize(8);
    w.script.file = false;
    {
        std::stringstream ss;
        auto &c = w.f.cfg;
        LazWriter wr(ss, copc::las::LazConfigWriter(c.fmt, c.scale, c.offset, c.wkt, c.eb));
        for (int i = 0; i < 3; i++)
            wr.WriteChunk(to_raw({rand_raw(r, c.ebn), rand_raw(r, c.ebn)}, c.fmt));
        wr.Close();
        w.laz = ss.str();
    }
    w.damaged = r.chance(60) ? w.f.img : w.laz;
    int m = (int)r.below(4);
    if (m == 0)
        w.damaged.resize(r.below(w.damaged.size()));
    else
        for (int i = 0; i < m; i++)
            w.damaged[m == 1 ? r.below(w.damaged.size()) : r.below(std::min<size_t>(w.damaged.size(), 1200))] ^= (char)r.range(1, 255);
    w.paths = {put(w, "good.copc.laz", w.f.img), put(w, "good.laz", w.laz), put(w, "bad.laz", w.damaged), put(w, "empty.laz", ""), w.dir + "/missing.laz", w.dir};
    return w;
}

template <typename F> static void quiet(F &&f)
{
    try
    {
        f();
    }
    catch (const std::exception &)
    {
    }
}

// ---------------------------------------------------------------- uses
static void use_reader(Rng &r, copc::Reader &rd, const World &w)
{
    int n = (int)r.below(4);
    for (int i = 0; i < n; i++)
        quiet([&]
              {
                  VoxelKey k = !w.f.nodes.empty() && r.chance(70) ? r.pick(w.f.nodes).key : random_key(r, 5);
                  switch (r.below(10))
                  {
                  case 0: rd.FindNode(k); break;
                  case 1: rd.GetPoints(k); break;
                  case 2: rd.GetPointDataCompressed(k); break;
                  case 3: rd.GetAllNodes(); break;
                  case 4: rd.GetAllPoints(); break;
                  case 5: rd.GetPointsWithinBox(copc::Box::MaxBox()); break;
                  case 6: rd.ValidateSpatialBounds(true); break;
                  case 7: rd.CopcConfig(); break;
                  case 8: rd.GetPoints(copc::Node(copc::Entry(k, w.f.img.size() + 5, 10, 2))); break;
                  default: rd.GetAllChildrenOfPage(k);
                  }
              });
}
static void use_laz(Rng &r, LazReader &rd)
{
    int n = (int)r.below(3);
    for (int i = 0; i < n; i++)
        quiet([&]
              {
                  if (r.chance(50))
                      rd.GetPoints();
                  else
                      rd.GetPointData();
                  rd.LazConfig();
              });
}
static void use_writer(Rng &r, copc::Writer &w, const World &wd)
{
    Model m;
    auto &s = wd.script;
    for (auto &o : s.ops)
        quiet([&]
              {
                  Bytes raw = to_raw(o.pts, s.cfg.fmt);
                  switch (o.kind)
                  {
                  case ADD_POINTS: w.AddNode(o.key, to_points(static_cast<const CopcConfigWriter &>(*w.CopcConfig()).LasHeader(), o.pts), o.page); break;
                  case ADD_BYTES: w.AddNode(o.key, raw, o.page); break;
                  case ADD_PACKED: w.AddNodeCompressed(o.key, L::pack_chunk(raw, s.cfg.fmt, s.cfg.ebn), (int)o.pts.size(), o.page); break;
                  case MOVE: w.ChangeNodePage(o.key, o.page); break;
                  case FIND: w.FindNode(o.key); break;
                  default:
                  {
                      bool t;
                      std::string what;
                      do_bad(w, s, o, m, t, what);
                  }
                  }
              });
}
static void use_laz_writer(Rng &r, LazWriter &w, const World &wd)
{
    auto &c = wd.script.cfg;
    int n = (int)r.below(4);
    for (int i = 0; i < n; i++)
        quiet([&]
              {
                  std::vector<Raw> pts{rand_raw(r, c.ebn), rand_raw(r, c.ebn)};
                  Bytes raw = to_raw(pts, c.fmt);
                  switch (r.below(5))
                  {
                  case 0: w.WritePoints(to_points(static_cast<const copc::las::LazConfigWriter &>(*w.LazConfig()).LasHeader(), pts)); break;
                  case 1: w.WritePointsCompressed(L::pack_chunk(raw, c.fmt, c.ebn), 2); break;
                  case 2: w.WriteChunk(raw); break;
                  case 3: w.WritePointsCompressed(raw, 0); break;
                  default: raw.pop_back(), w.WriteChunk(raw);
                  }
              });
}
static copc::las::LazConfigWriter laz_cfg(const World &w)
{
    auto &c = w.script.cfg;
    return copc::las::LazConfigWriter(c.fmt, c.scale, c.offset, c.wkt, c.eb);
}

// ---------------------------------------------------------------- scenarios
template <typename Held, typename Make> static void hold(Rng &r, Make &&make, std::function<void(Held &)> use)
{
    // a pointer to a base decides which destructor runs
    Held p = make();
    use(p);
    p.reset();
}
static void s_file_reader(Rng &r, const World &w)
{
    std::string path = r.pick(w.paths);
    int before = open_fds();
    bool opened = false;
    int closes = (int)r.below(3);
    auto make = [&]
    {
        auto p = std::make_unique<copc::FileReader>(path);
        opened = true;
        H::count("descriptors-seen", open_fds() - before);
        use_reader(r, *p, w);
        for (int i = 0; i < closes; i++)
        {
            p->Close();
            EXPECT(open_fds() == before, "close-keeps-descriptor", "FileReader::Close left " << open_fds() - before << " descriptors open");
        }
        return p;
    };
    quiet([&]
          {
              switch (r.below(5))
              {
              case 0: { std::unique_ptr<copc::FileReader> p = make(); break; }
              case 1: { std::unique_ptr<copc::Reader> p = make(); break; }
              case 2: { std::unique_ptr<copc::BaseReader> p = make(); break; }
              case 3: { std::unique_ptr<copc::BaseIO> p = make(); break; }
              default: { std::shared_ptr<copc::Reader> p = make(); auto q = p; }
              }
          });
    H::note("file-reader", opened ? "opened" : "refused");
}
static void s_laz_file_reader(Rng &r, const World &w)
{
    std::string path = r.pick(w.paths);
    int before = open_fds();
    bool opened = false;
    int closes = (int)r.below(3);
    auto make = [&]
    {
        auto p = std::make_unique<LazFileReader>(path);
        opened = true;
        H::count("descriptors-seen", open_fds() - before);
        use_laz(r, *p);
        for (int i = 0; i < closes; i++)
        {
            p->Close();
            EXPECT(open_fds() == before, "close-keeps-descriptor", "LazFileReader::Close left " << open_fds() - before << " descriptors open");
        }
        return p;
    };
    quiet([&]
          {
              switch (r.below(4))
              {
              case 0: { std::unique_ptr<LazFileReader> p = make(); break; }
              case 1: { std::unique_ptr<LazReader> p = make(); break; }
              case 2: { std::unique_ptr<copc::BaseReader> p = make(); break; }
              default: { std::shared_ptr<LazReader> p = make(); auto q = p; }
              }
          });
    H::note("laz-file-reader", opened ? "opened" : "refused");
}
static void s_stream_reader(Rng &r, const World &w)
{
    std::string img = r.oneof({w.f.img, w.f.img, w.laz, w.damaged});
    quiet([&]
          {
              std::istringstream in(img), in2(w.f.img);
              auto a = std::make_unique<copc::Reader>(&in);
              use_reader(r, *a, w);
              int k = (int)r.below(6);
              if (k == 0)
              {
                  copc::Reader b(std::move(*a)); // the new one answers, the old one only goes away
                  if (r.chance(50))
                      a.reset();
                  use_reader(r, b, w);
                  auto n = b.GetAllNodes();
                  H::note("moved", "constructed");
              }
              else if (k == 1)
              {
                  copc::Reader b(&in2);
                  use_reader(r, b, w);
                  b = std::move(*a);
                  if (r.chance(50))
                      a.reset();
                  use_reader(r, b, w);
                  H::note("moved", "assigned");
              }
              else if (k == 2)
              {
                  std::vector<copc::Reader> v; // grows by moving
                  for (int i = 0; i < 4; i++)
                  {
                      v.emplace_back(i % 2 ? &in : &in2);
                      use_reader(r, v[0], w);
                  }
                  v.erase(v.begin());
                  use_reader(r, v[1], w);
                  H::note("moved", "vector");
              }
              else if (k == 3)
                  std::unique_ptr<copc::BaseIO> b(std::move(a));
              else if (k == 4)
                  std::unique_ptr<copc::BaseReader> b(std::move(a));
          });
    quiet([&]
          {
              std::istringstream in(img), in2(w.laz);
              auto a = std::make_unique<LazReader>(&in);
              use_laz(r, *a);
              int k = (int)r.below(4);
              if (k == 0)
              {
                  LazReader b(std::move(*a));
                  if (r.chance(50))
                      a.reset();
                  use_laz(r, b);
              }
              else if (k == 1)
              {
                  LazReader b(&in2);
                  use_laz(r, b);
                  b = std::move(*a);
                  use_laz(r, b);
              }
              else if (k == 2)
                  std::unique_ptr<copc::BaseReader> b(std::move(a));
          });
}
static void s_file_writer(Rng &r, const World &w)
{
    std::string path = r.oneof({w.dir + "/out.laz", w.dir + "/out.laz", w.dir + "/out.laz", w.dir, w.dir + "/no/out.laz", std::string("/dev/full")});
    int before = open_fds(), closes = (int)r.below(3);
    bool opened = false;
    auto make = [&]
    {
        auto cfg = make_cfg(w.script.cfg);
        auto p = std::make_unique<copc::FileWriter>(path, cfg);
        opened = true;
        H::count("descriptors-seen", open_fds() - before);
        use_writer(r, *p, w);
        for (int i = 0; i < closes; i++)
        {
            quiet([&] { p->Close(); });
            EXPECT(open_fds() == before, "close-keeps-descriptor", "FileWriter::Close left " << open_fds() - before << " descriptors open");
        }
        return p;
    };
    quiet([&]
          {
              switch (r.below(4))
              {
              case 0: { std::unique_ptr<copc::FileWriter> p = make(); break; }
              case 1: { std::unique_ptr<copc::Writer> p = make(); break; }
              case 2: { std::unique_ptr<copc::BaseIO> p = make(); break; }
              default: { std::shared_ptr<copc::Writer> p = make(); auto q = p; }
              }
          });
    H::note("file-writer", opened ? "opened" : "refused");
    opened = false;
    auto lmake = [&]
    {
        auto p = std::make_unique<LazFileWriter>(path, laz_cfg(w));
        opened = true;
        H::count("descriptors-seen", open_fds() - before);
        use_laz_writer(r, *p, w);
        for (int i = 0; i < closes; i++)
        {
            quiet([&] { p->Close(); });
            EXPECT(open_fds() == before, "close-keeps-descriptor", "LazFileWriter::Close left " << open_fds() - before << " descriptors open");
        }
        return p;
    };
    quiet([&]
          {
              switch (r.below(3))
              {
              case 0: { std::unique_ptr<LazFileWriter> p = lmake(); break; }
              case 1: { std::unique_ptr<LazWriter> p = lmake(); break; }
              default: { std::unique_ptr<copc::laz::BaseWriter> p = lmake(); }
              }
          });
    H::note("laz-file-writer", opened ? "opened" : "refused");
    unlink((w.dir + "/out.laz").c_str());
}
static void s_stream_writer(Rng &r, const World &w)
{
    quiet([&]
          {
              std::stringstream out;
              std::shared_ptr<CopcConfigWriter> kept;
              std::unique_ptr<copc::Writer> p;
              {
                  auto cfg = make_cfg(w.script.cfg);
                  p = std::make_unique<copc::Writer>(out, cfg);
              } // the configuration given to the writer is gone
              use_writer(r, *p, w);
              kept = p->CopcConfig();
              int k = (int)r.below(5);
              if (k == 0)
                  p->Close();
              else if (k == 1)
                  std::unique_ptr<copc::BaseIO> b(std::move(p));
              else if (k == 2)
              {
                  copc::Writer q(*p); // shares the output
                  use_writer(r, q, w);
                  if (r.chance(50))
                      p.reset();
              }
              p.reset();
              kept->LasHeader()->ToString(); // the configuration outlives its writer
              kept->CopcExtents()->ToString();
          });
    quiet([&]
          {
              std::stringstream out;
              std::unique_ptr<LazWriter> p = std::make_unique<LazWriter>(out, laz_cfg(w));
              use_laz_writer(r, *p, w);
              auto kept = p->LazConfig();
              if (r.chance(40))
                  p->Close();
              if (r.chance(30))
                  std::unique_ptr<copc::laz::BaseWriter> b(std::move(p));
              p.reset();
              kept->LasHeader()->ToString();
          });
}
// Results outlive the reader and the stream they came from
static void s_results(Rng &r, const World &w)
{
    std::vector<copc::Node> nodes;
    std::unique_ptr<copc::las::Points> pts;
    std::shared_ptr<copc::las::Point> one;
    std::unique_ptr<copc::CopcConfig> cfg;
    std::unique_ptr<CopcConfigWriter> wcfg;
    quiet([&]
          {
              std::istringstream in(r.chance(80) ? w.f.img : w.damaged);
              copc::Reader rd(&in);
              cfg = std::make_unique<copc::CopcConfig>(rd.CopcConfig());
              wcfg = std::make_unique<CopcConfigWriter>(rd.CopcConfig());
              nodes = rd.GetAllNodes();
              pts = std::make_unique<copc::las::Points>(rd.GetAllPoints());
          });
    for (auto &n : nodes)
        n.ToString();
    if (pts && pts->Size())
    {
        one = pts->Get(r.below(pts->Size()));
        auto vec = pts->Get();
        if (r.chance(50))
            pts->ToPointFormat((int8_t)r.range(6, 8));
        copc::las::Points copy(*pts), taken(std::move(*pts));
        copy.AddPoints(taken);
        pts.reset();
        if (cfg)
            quiet([&] { copy.Pack(cfg->LasHeader()); });
        vec[0]->ToString();
    }
    if (one)
        one->ToString();
    if (cfg && wcfg)
    {
        copc::CopcConfig c2(*cfg);
        *cfg = c2;
        cfg.reset();
        c2.LasHeader().ToString();
        auto h = wcfg->LasHeader();
        auto e = wcfg->CopcExtents();
        auto i = wcfg->CopcInfo();
        CopcConfigWriter w2(*wcfg), w3(w2);
        w3 = w2;
        wcfg.reset();
        h->ToString();
        e->ToString();
        i->ToString();
        copc::las::LazConfigWriter lw{copc::las::LazConfig(c2)};
        lw.LasHeader()->ToString();
    }
}
// Values the parameter types admit but nobody sensible passes
static double odd_double(Rng &r)
{
    double inf = std::numeric_limits<double>::infinity();
    return r.oneof({0.0, -0.0, 1.0, -1.0, 1e-320, 1e308, -1e308, inf, -inf, std::nan(""), 2147483647.0, -2147483649.0, 1e10, 0.01});
}
static int32_t odd_int(Rng &r)
{
    return r.oneof<int32_t>({0, 1, -1, 2, 30, 31, 32, 33, 63, 64, INT32_MAX, INT32_MIN, INT32_MAX - 1, 1 << 30});
}
static VoxelKey odd_key(Rng &r)
{
    int32_t d = r.chance(70) ? (int32_t)r.range(-1, 40) : odd_int(r);
    return VoxelKey(d, odd_int(r), odd_int(r), odd_int(r));
}
static void s_odd_values(Rng &r, const World &w)
{
    for (int i = 0; i < 12; i++)
        quiet([&]
              {
                  switch (r.below(16))
                  {
                  case 0:
                  {
                      VoxelKey k = odd_key(r), p = odd_key(r);
                      k.ToString(), k.GetParent(), k.ChildOf(p), k.IsValid(), std::hash<VoxelKey>()(k);
                      quiet([&] { k.GetParentAtDepth(odd_int(r)); });
                      quiet([&] { k.Bisect(r.chance(70) ? r.below(8) : (uint64_t)odd_int(r)); });
                      quiet([&] { k.GetChildren(); });
                      if (k.d < 100)
                          k.GetParents(r.chance(50));
                      break;
                  }
                  case 1:
                  {
                      copc::las::LasHeader h;
                      h.min = {odd_double(r), odd_double(r), odd_double(r)};
                      h.max = {odd_double(r), odd_double(r), odd_double(r)};
                      VoxelKey k = odd_key(r);
                      copc::Box b;
                      quiet([&] { b = copc::Box(odd_double(r), odd_double(r), odd_double(r), odd_double(r), odd_double(r), odd_double(r)); });
                      k.Intersects(h, b), k.Within(h, b), k.Crosses(h, b), k.Contains(h, b), k.Contains(h, h.min);
                      copc::CopcInfo ci;
                      ci.spacing = odd_double(r);
                      k.Resolution(h, ci);
                      VoxelKey::GetResolutionAtDepth(odd_int(r), h, ci);
                      b.ToString(), h.ToString(), h.Span();
                      break;
                  }
                  case 2:
                  {
                      copc::las::LasHeader h((int8_t)odd_int(r), (uint16_t)odd_int(r), {odd_double(r), odd_double(r), odd_double(r)}, {odd_double(r), odd_double(r), odd_double(r)}, r.chance(50));
                      quiet([&] { h.RemoveScaleX(odd_double(r)); });
                      quiet([&] { h.RemoveScaleY(odd_double(r)); });
                      quiet([&] { h.EbByteSize(); });
                      h.ApplyScaleZ(odd_double(r)), h.ToString();
                      quiet([&] { h.GUID(std::string(odd_int(r) & 63, 'x')); });
                      quiet([&] { copc::las::Point p(h); p.ToString(); });
                      quiet([&] { copc::las::Points p(h); p.ToString(); });
                      break;
                  }
                  case 3: copc::las::PointBaseByteSize((int8_t)odd_int(r)); break;
                  case 4: copc::las::PointByteSize((int8_t)r.range(0, 12), (uint16_t)odd_int(r)); break;
                  case 5: copc::las::EbByteSize((int8_t)r.range(0, 12), (uint32_t)odd_int(r)); break;
                  case 6:
                  {
                      copc::las::Point p((int8_t)r.range(5, 9), (uint16_t)r.below(70));
                      p.X(odd_double(r)), p.Y(odd_double(r));
                      quiet([&] { p.ScanAngleDegrees((float)odd_double(r)); });
                      quiet([&] { p.ReturnNumber((uint8_t)r.below(256)); });
                      quiet([&] { p.ToPointFormat((int8_t)r.range(-2, 11)); });
                      quiet([&] { p.ExtraBytes(std::vector<uint8_t>(r.below(80))); });
                      std::ostringstream o;
                      p.Pack(o, {odd_double(r), 1, 1}, {odd_double(r), 0, 0});
                      break;
                  }
                  case 7:
                  {
                      std::string s(r.below(80), '\x7f');
                      std::istringstream in(s);
                      copc::las::Point::Unpack(in, (int8_t)r.range(5, 9), {odd_double(r), 1, 1}, {0, 0, odd_double(r)}, (uint16_t)r.below(100))->ToString();
                      break;
                  }
                  case 8: copc::las::Points::Unpack(Bytes(r.below(200)), (int8_t)r.range(5, 9), (uint16_t)r.below(30), {1, 1, 1}, {0, 0, 0}).ToString(); break;
                  case 9:
                  {
                      copc::CopcExtents e((int8_t)r.range(4, 10), (uint16_t)r.below(40), r.chance(50));
                      quiet([&] { copc::CopcExtents(e, (int8_t)r.range(4, 10), (uint16_t)r.below(40), true).ToString(); });
                      e.ToString();
                      quiet([&] { e.ExtraBytes(std::vector<std::shared_ptr<copc::CopcExtent>>(r.below(5), std::make_shared<copc::CopcExtent>())); });
                      quiet([&] { copc::CopcExtent(std::vector<double>(r.below(6))); });
                      break;
                  }
                  case 10:
                  {
                      Bytes b(r.below(150));
                      copc::laz::Compressor::CompressBytes(b, (int8_t)r.range(4, 10), (uint16_t)r.below(20));
                      break;
                  }
                  case 11:
                  {
                      Bytes b(r.below(150));
                      for (auto &c : b)
                          c = (char)r.next();
                      copc::laz::Decompressor::DecompressBytes(b, (int8_t)r.range(4, 10), (uint16_t)r.below(20), (int)r.range(-2, 5));
                      break;
                  }
                  case 12:
                  {
                      std::istringstream in(w.f.img);
                      copc::Reader rd(&in);
                      double res = odd_double(r);
                      quiet([&] { rd.GetDepthAtResolution(res); });
                      quiet([&] { rd.GetNodesAtResolution(res); });
                      quiet([&] { rd.GetNodesWithinResolution(res); });
                      quiet([&] { rd.GetPointsWithinBox(copc::Box(odd_double(r), odd_double(r), odd_double(r), odd_double(r)), res); });
                      quiet([&] { rd.FindNode(odd_key(r)); });
                      quiet([&] { rd.GetAllChildrenOfPage(odd_key(r)); });
                      quiet([&] { rd.GetPoints(copc::Node(copc::Entry(odd_key(r), (uint64_t)odd_int(r), odd_int(r), (int)r.range(-2, 100)))); });
                      break;
                  }
                  case 13:
                  {
                      copc::las::EbVlr eb((int)0);
                      copc::las::EbVlr::ebfield f;
                      f.data_type = (uint8_t)r.below(40);
                      f.options = (uint8_t)r.next();
                      f.name = std::string(r.below(40), 'n');
                      eb.items.push_back(f);
                      quiet([&] { copc::las::NumBytesFromExtraBytes(eb.items); });
                      std::stringstream out;
                      CopcConfigWriter c((int8_t)r.range(5, 9), {odd_double(r), 1, 1}, {odd_double(r), 0, 0}, "wkt", eb, r.chance(50));
                      copc::Writer wr(out, c);
                      quiet([&] { wr.AddNode(odd_key(r), Bytes(36 + r.below(60)), odd_key(r)); });
                      quiet([&] { wr.AddNodeCompressed(VoxelKey(0, 0, 0, 0), Bytes(r.below(50)), odd_int(r)); });
                      quiet([&] { wr.ChangeNodePage(odd_key(r), odd_key(r)); });
                      wr.Close();
                      break;
                  }
                  case 14:
                  {
                      std::istringstream in(std::string(r.below(40), 'a'));
                      copc::Entry::Unpack(in).ToString();
                      break;
                  }
                  default:
                  {
                      copc::las::LazConfig c;
                      c.LasHeader().ToString(), c.Wkt(), c.ExtraBytesVlr();
                      copc::las::LazConfig c2(c);
                      copc::CopcConfig d;
                      d.LasHeader().ToString(), d.CopcInfo().ToString(), d.CopcExtents().ToString();
                      copc::CopcConfig d2(d);
                      d2 = d;
                      CopcConfigWriter e(d2);
                      e.CopcExtents()->ToString();
                  }
                  }
              });
}
static void s_battery(Rng &r, const World &w)
{
    if (r.chance(70))
        B::copc_all(r, r.chance(50) ? w.f.img : w.damaged);
    else
        B::laz_all(r, r.chance(50) ? w.laz : w.damaged);
}

struct Scenario
{
    const char *name;
    void (*f)(Rng &, const World &);
    bool oom;
};
static const Scenario scenarios[] = {
    {"file-reader", s_file_reader, true}, {"laz-file-reader", s_laz_file_reader, true}, {"stream-reader", s_stream_reader, true},
    {"file-writer", s_file_writer, true}, {"stream-writer", s_stream_writer, true},     {"results", s_results, true},
    {"odd-values", s_odd_values, true},   {"battery", s_battery, false},
};

static void measured(const Scenario &s, uint64_t seed, const World &w, int64_t fail_at, bool from)
{
    int64_t grew = INT64_MAX;
    int fds = 0;
    std::string how = fail_at < 0 ? "" : from ? " without memory" : " with a failed allocation";
    for (int i = 0; i < 4; i++)
    {
        Rng r(seed);
        int64_t live = B::live;
        int before = open_fds();
        {
            OOM::Arm a(fail_at, from);
            try
            {
                s.f(r, w);
            }
            catch (const std::exception &)
            {
            }
        }
        fds = open_fds() - before;
        EXPECT(fds == 0, std::string("descriptors:") + s.name, s.name << how << " leaves " << fds << " more descriptors open");
        if (i > 0)
            grew = std::min<int64_t>(grew, B::live - live);
        H::count("scenario-runs");
        if (fds || (i > 0 && grew <= 0))
            break;
    }
    EXPECT(grew <= 0, std::string("leak:") + s.name, s.name << how << " (at " << fail_at << ") leaves " << grew << " more bytes in use each time");
}
static void case_c21(Rng &r)
{
    World w = make_world(r);
    for (auto &s : scenarios)
    {
        uint64_t seed = r.next();
        uint64_t made = OOM::made;
        measured(s, seed, w, -1, false);
        made = OOM::made - made;
        H::note("scenario", s.name);
        if (!s.oom || !r.chance(40))
            continue;
        {
            Rng q(seed);
            made = OOM::made;
            s.f(q, w);
            made = OOM::made - made;
        }
        for (int i = 0; i < 6; i++)
        {
            uint64_t f = OOM::failed;
            measured(s, seed, w, (int64_t)r.below(r.chance(50) ? made + 1 : std::min<uint64_t>(made + 1, 60)), r.chance(40));
            if (OOM::failed > f)
            {
                H::count("allocation-failures", OOM::failed - f);
                H::note("scenario", std::string(s.name) + " without memory");
            }
        }
    }
    for (auto &p : w.paths)
        unlink(p.c_str());
    rmdir(w.dir.c_str());
    H::sig(H::mix(H::hashs(w.f.img), H::hashs(w.damaged)));
    H::sample(FG::describe(w.f) + ", damaged image of " + std::to_string(w.damaged.size()) + " bytes");
}
void once_begin() { B::watch_heap(); }
void run_case(uint64_t, Rng &r) { case_c21(r); }
