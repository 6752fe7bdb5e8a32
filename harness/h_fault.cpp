// C23: output failures at every kind of stream event.  C28: what readers make of every prefix of an interrupted write.
#include "common.hpp"
#include "hist.hpp"
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace W;

// ------------------------------------------------------------------ a stream that fails on demand and records what it was given
struct Fault
{
    enum Kind
    {
        NONE,
        SPACE,      // no byte beyond `at` is ever taken; what fits is
        WRITE_ONCE, // the at-th write call takes `part` bytes and fails, later ones work
        WRITE_ALL,  // every write from the at-th on fails
        THROW,      // the at-th write call throws
        SYNC,       // the at-th flush fails
        SYNC_ALL,   // every flush from the at-th on fails
        SEEK,       // the at-th change of position fails
        SEEK_ALL,   // the stream cannot be positioned from the at-th time on
        BAD         // the stream is already unusable
    } kind{NONE};
    uint64_t at{0}, part{0};
};
static const char *fault_name[] = {"none", "space", "write-once", "write-all", "throw", "sync", "sync-all", "seek", "seek-all", "bad"};
struct Event
{
    uint64_t pos, size;
};
struct FaultBuf : std::streambuf
{
    std::string data, log; // final bytes; bytes in write order
    std::vector<Event> events;
    uint64_t pos{0}, writes{0}, syncs{0}, seeks{0};
    Fault f;
    bool hit{false};
    std::vector<char> area; // with an area, bytes reach the medium in blocks as with a file buffer

    explicit FaultBuf(Fault fault = {}, size_t block = 0) : f(fault), area(block)
    {
        if (block)
            setp(area.data(), area.data() + block);
    }
    uint64_t commit(const char *p, uint64_t n)
    {
        if (!n)
            return 0;
        uint64_t take = n, w = writes++;
        switch (f.kind)
        {
        case Fault::SPACE: take = pos >= f.at ? 0 : std::min(n, f.at - pos); break;
        case Fault::WRITE_ONCE:
            if (w == f.at)
                take = std::min(f.part, n - 1);
            break;
        case Fault::WRITE_ALL:
            if (w >= f.at)
                take = w == f.at ? std::min(f.part, n - 1) : 0;
            break;
        case Fault::THROW:
            if (w == f.at)
            {
                hit = true;
                throw std::runtime_error("the medium failed");
            }
            break;
        default: break;
        }
        if (take < n)
            hit = true;
        if (take)
        {
            if (data.size() < pos + take)
                data.resize(pos + take, 0);
            memcpy(&data[pos], p, take);
            log.append(p, take);
            if (!events.empty() && events.back().pos + events.back().size == pos && take == 1)
                events.back().size++; // bytes put one by one
            else
                events.push_back({pos, take});
            pos += take;
        }
        return take;
    }
    bool drain()
    {
        if (area.empty())
            return true;
        uint64_t n = pptr() - pbase();
        uint64_t got = commit(pbase(), n);
        setp(area.data(), area.data() + area.size());
        return got == n;
    }
    int_type overflow(int_type c) override
    {
        if (!drain())
            return traits_type::eof();
        if (traits_type::eq_int_type(c, traits_type::eof()))
            return traits_type::not_eof(c);
        char ch = traits_type::to_char_type(c);
        if (!area.empty())
        {
            *pptr() = ch;
            pbump(1);
            return c;
        }
        return commit(&ch, 1) == 1 ? c : traits_type::eof();
    }
    std::streamsize xsputn(const char *p, std::streamsize n) override
    {
        if (area.empty())
            return commit(p, n);
        std::streamsize i = 0;
        for (; i < n; i++)
            if (traits_type::eq_int_type(sputc(p[i]), traits_type::eof()))
                break;
        return i;
    }
    bool may_move()
    {
        uint64_t s = seeks++;
        if ((f.kind == Fault::SEEK && s == f.at) || (f.kind == Fault::SEEK_ALL && s >= f.at))
        {
            hit = true;
            return false;
        }
        return true;
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        if (dir == std::ios_base::cur && off == 0)
        {
            if (f.kind == Fault::SEEK_ALL && seeks > f.at)
                return pos_type(off_type(-1));
            return pos_type(off_type(pos + (area.empty() ? 0 : pptr() - pbase())));
        }
        if (!drain() || !may_move())
            return pos_type(off_type(-1));
        int64_t base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::end ? (int64_t)data.size() : (int64_t)pos;
        if (base + off < 0)
            return pos_type(off_type(-1));
        pos = base + off;
        return pos_type(off_type(pos));
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
    int sync() override
    {
        uint64_t s = syncs++;
        bool ok = drain();
        if ((f.kind == Fault::SYNC && s == f.at) || (f.kind == Fault::SYNC_ALL && s >= f.at))
        {
            hit = true;
            return -1;
        }
        return ok ? 0 : -1;
    }
};

// ------------------------------------------------------------------ a writer history, COPC or LAZ
struct LOp
{
    int kind;
    std::vector<Raw> pts;
};
struct Job
{
    bool copc;
    Script s;
    std::vector<LOp> l;
};
static Job rand_job(Rng &r, bool small)
{
    Job j;
    j.copc = r.chance(60);
    j.s = rand_script(r, false);
    if (small && j.s.ops.size() > 14)
        j.s.ops.resize(14);
    if (j.s.meta_at > (int)j.s.ops.size())
        j.s.meta_at = -1;
    if (small && j.s.cfg.wkt.size() > 400)
        j.s.cfg.wkt.resize(300);
    if (!j.copc)
    {
        int n = r.chance(8) ? 0 : (int)r.range(1, 8);
        for (int i = 0; i < n; i++)
        {
            LOp o;
            o.kind = (int)r.below(3);
            int np = (int)r.range(1, j.s.cfg.rec() > 300 ? 3 : 9);
            for (int q = 0; q < np; q++)
                o.pts.push_back(rand_raw(r, j.s.cfg.ebn));
            j.l.push_back(o);
        }
    }
    return j;
}
struct Plan
{
    bool go_on{false};    // carry on with further operations after one failed
    int close{1};         // times Close is called
    bool die{false};      // the process ends instead of closing
};
struct Outcome
{
    bool reported{false}, foreign{false};
    std::string first, where;
    bool second_threw{false};
    bool close_threw{false};
    void fail(const char *at, const std::string &e)
    {
        if (!reported)
            first = e, where = at;
        reported = true;
    }
};
template <typename F> bool step(Outcome &o, const char *at, F &&f)
{
    try
    {
        f();
        return true;
    }
    catch (const std::exception &e)
    {
        o.fail(at, e.what());
    }
    catch (...)
    {
        o.fail(at, "not a std::exception");
        o.foreign = true;
    }
    return false;
}
static void copc_op(copc::Writer &w, const Job &j, const Op &o)
{
    auto &c = j.s.cfg;
    Bytes raw = to_raw(o.pts, c.fmt);
    switch (o.kind)
    {
    case ADD_POINTS: w.AddNode(o.key, to_points(static_cast<const CopcConfigWriter &>(*w.CopcConfig()).LasHeader(), o.pts), o.page); break;
    case ADD_BYTES: w.AddNode(o.key, raw, o.page); break;
    case ADD_PACKED: w.AddNodeCompressed(o.key, L::pack_chunk(raw, c.fmt, c.ebn), (int)o.pts.size(), o.page); break;
    case MOVE: w.ChangeNodePage(o.key, o.page); break;
    case FIND: w.FindNode(o.key); break;
    default: break;
    }
}
static void laz_op(copc::laz::LazWriter &w, const Job &j, const LOp &o)
{
    auto &c = j.s.cfg;
    Bytes raw = to_raw(o.pts, c.fmt);
    switch (o.kind)
    {
    case 0: w.WritePoints(to_points(static_cast<const copc::las::LazConfigWriter &>(*w.LazConfig()).LasHeader(), o.pts)); break;
    case 1: w.WritePointsCompressed(L::pack_chunk(raw, c.fmt, c.ebn), (int)o.pts.size()); break;
    default: w.WriteChunk(raw); break;
    }
}
// make() constructs the writer
template <typename Wr, typename Make, typename Snap> void drive(const Job &j, const Plan &p, Outcome &o, Make &&make, Snap &&snap)
{
    std::unique_ptr<Wr> w;
    if (!step(o, "open", [&] { w = make(); }))
        return;
    if constexpr (std::is_base_of_v<copc::Writer, Wr>)
    {
        // unlike after success, a node whose write failed is not known, so operations on it are left out
        KeySet gone;
        int i = 0;
        for (auto &op : j.s.ops)
        {
            if (j.s.meta_at == i++)
                set_meta(*w->CopcConfig(), j.s.meta);
            if (gone.count(op.key))
                continue;
            if (!step(o, "add", [&] { copc_op(*w, j, op); }))
            {
                if (op.kind <= ADD_PACKED)
                    gone.insert(op.key);
                if (!p.go_on)
                    break;
            }
        }
        if (j.s.meta_at == (int)j.s.ops.size())
            set_meta(*w->CopcConfig(), j.s.meta);
    }
    else
    {
        for (auto &op : j.l)
            if (!step(o, "write", [&] { laz_op(*w, j, op); }) && !p.go_on)
                break;
    }
    if (p.die)
        _exit(0);
    for (int c = 0; c < p.close; c++)
    {
        auto img = snap();
        bool ok = step(o, "close", [&] { w->Close(); });
        if (c == 0)
            o.close_threw = !ok;
        else
        {
            o.second_threw |= !ok;
            EXPECT(img == snap(), "second-close-writes", "closing again changed the output");
        }
        if (c > 0)
            H::count("second-closes");
    }
    // the destructor must not let anything escape: that would be the end of this process
    w.reset();
    H::count("destructions");
}
static void run_stream(const Job &j, const Plan &p, std::ostream &os, FaultBuf &b, Outcome &o)
{
    auto snap = [&] { return std::make_pair(b.log.size(), H::hashs(b.data)); };
    if (j.copc)
    {
        auto cfg = make_cfg(j.s.cfg);
        if (j.s.meta_at < 0)
            set_meta(cfg, j.s.meta);
        drive<copc::Writer>(j, p, o, [&] { return std::make_unique<copc::Writer>(os, cfg); }, snap);
    }
    else
    {
        auto &c = j.s.cfg;
        copc::las::LazConfigWriter lc(c.fmt, c.scale, c.offset, c.wkt, c.eb);
        apply_header(*lc.LasHeader(), j.s.meta);
        drive<copc::laz::LazWriter>(j, p, o, [&] { return std::make_unique<copc::laz::LazWriter>(os, lc); }, snap);
    }
}
static void run_file(const Job &j, const Plan &p, const std::string &path, Outcome &o)
{
    auto snap = [&]
    {
        struct stat st = {};
        stat(path.c_str(), &st);
        return std::make_pair((long long)st.st_size, S_ISREG(st.st_mode) ? H::hashs(slurp(path)) : 0);
    };
    if (j.copc)
    {
        auto cfg = make_cfg(j.s.cfg);
        if (j.s.meta_at < 0)
            set_meta(cfg, j.s.meta);
        drive<copc::FileWriter>(j, p, o, [&] { return std::make_unique<copc::FileWriter>(path, cfg); }, snap);
    }
    else
    {
        auto &c = j.s.cfg;
        copc::las::LazConfigWriter lc(c.fmt, c.scale, c.offset, c.wkt, c.eb);
        apply_header(*lc.LasHeader(), j.s.meta);
        drive<copc::laz::LazFileWriter>(j, p, o, [&] { return std::make_unique<copc::laz::LazFileWriter>(path, lc); }, snap);
    }
}
// What a file says, leaving out the order of its hierarchy pages (siblings are written in the order of their addresses in memory)
static std::string canon(const std::string &img, bool copc)
{
    if (!copc)
        return img;
    L::Parsed p = L::parse(img, true);
    if (!p.err.empty() || p.evlr_offset > img.size())
        return "broken: " + img;
    std::ostringstream s;
    std::string head = img.substr(0, p.evlr_offset);
    const L::Rec *info = p.find("copc", 1);
    if (info)
        for (uint64_t i = info->payload + 40; i < info->payload + 48 && i < head.size(); i++)
            head[i] = 0;
    s << head << "|" << img.size();
    for (auto &g : p.pages)
        s << "|page " << ks(g.first) << " " << g.second.size;
    for (auto &n : p.nodes)
        s << "|node " << ks(n.first) << " " << ks(p.node_page[n.first]) << " " << n.second.offset << " " << n.second.size << " " << n.second.count;
    for (auto &e : p.evlrs)
        if (!(e.user == "copc" && e.id == 1000))
            s << "|" << e.user << e.id << img.substr(e.payload, e.size);
    return s.str();
}
static bool same_file(const std::string &a, const std::string &b, bool copc) { return a == b || canon(a, copc) == canon(b, copc); }

static std::string where(const Job &j, const Fault &f, bool file)
{
    std::ostringstream s;
    s << (j.copc ? "copc " : "laz ") << (file ? "file " : "stream ") << fault_name[f.kind] << " at " << f.at << " part " << f.part << " ops " << (j.copc ? j.s.ops.size() : j.l.size());
    return s.str();
}
static void judge(const Job &j, const Fault &f, bool hit, bool same, const Plan &p, const Outcome &o, bool file, const std::string &id)
{
    std::string k = std::string(j.copc ? "copc" : "laz") + (file ? "-file" : "");
    EXPECT(!o.foreign, "foreign-exception", where(j, f, file) << " raised something that is not a std::exception");
    EXPECT(!o.second_threw, "second-close-throws", where(j, f, file) << ": closing again threw " << o.first);
    if (!hit)
    {
        EXPECT(!o.reported, "false-report:" + k, where(j, f, file) << ": failed at " << o.where << " without a failure: " << o.first);
        EXPECT(same, "changed-output:" + k, where(j, f, file) << ": other bytes than without a fault");
        H::count("not-hit");
        return;
    }
    H::count("faults-hit");
    H::note("fault", k + " " + fault_name[f.kind]);
    if (o.reported)
    {
        H::count("reported");
        H::note("reported-at", k + " " + o.where);
        H::note("message", o.first.substr(0, 60));
        return;
    }
    if (p.close == 0)
    {
        H::count("destructor-only");
        return;
    }
    EXPECT(same, "silent:" + id + ":" + fault_name[f.kind], where(j, f, file) << ": no operation and no Close reported the failure and the output differs");
    H::count("unreported-undamaged");
}

static void limit_size(rlim_t n)
{
    struct rlimit rl;
    getrlimit(RLIMIT_FSIZE, &rl);
    rl.rlim_cur = n == RLIM_INFINITY ? rl.rlim_max : n;
    setrlimit(RLIMIT_FSIZE, &rl);
}
static void stream_cases(Rng &r, const Job &j, const std::string &img0, const FaultBuf &b0)
{
    auto one = [&](Fault f)
    {
        Plan p;
        p.go_on = r.chance(50);
        p.close = r.chance(10) ? 0 : (int)r.range(1, 3);
        size_t block = r.chance(40) ? r.oneof<size_t>({1, 7, 64, 512, 4096}) : 0;
        if (block && f.kind != Fault::SPACE && f.kind != Fault::SEEK && f.kind != Fault::SEEK_ALL)
            f.at = r.below(std::max<uint64_t>(1, img0.size() / block + 4));
        Outcome o;
        std::string id = j.copc ? "copc" : "laz";
        FaultBuf b(f, block);
        std::ostream os(&b);
        bool exc = r.chance(25);
        if (f.kind == Fault::BAD)
        {
            os.setstate(r.chance(50) ? std::ios::badbit : std::ios::failbit);
            b.hit = true;
        }
        else if (exc)
            os.exceptions(r.chance(50) ? std::ios::badbit | std::ios::failbit : std::ios::badbit);
        run_stream(j, p, os, b, o);
        judge(j, f, b.hit, same_file(b.data, img0, j.copc), p, o, false, id);
        H::count("fault-runs");
        H::note("stream", std::string(block ? "blocks" : "direct") + (exc ? " throwing" : ""));
    };
    uint64_t n = b0.writes, total = img0.size();
    one({Fault::BAD, 0, 0});
    one({Fault::SYNC, 0, 0});
    one({Fault::SYNC_ALL, 0, 0});
    for (uint64_t i = 0; i <= b0.seeks; i++)
        one({Fault::SEEK, i, 0});
    one({Fault::SEEK_ALL, r.below(b0.seeks + 1), 0});
    one({Fault::SPACE, 0, 0});
    one({Fault::SPACE, total, 0});
    one({Fault::SPACE, total - 1, 0});
    // every write call past the reserved area, or as many as fit the time
    uint64_t first = b0.events.empty() ? 0 : b0.events[0].size; // the reserved area is put byte by byte
    if (first > n)
        first = 0;
    uint64_t m = n - first;
    uint64_t stepw = std::max<uint64_t>(1, m / (H::thorough ? 400 : 60));
    for (uint64_t i = first + r.below(stepw); i < n; i += stepw)
    {
        int k = (int)r.below(4);
        uint64_t part = r.chance(50) ? 0 : r.below(200);
        if (k == 3)
            one({Fault::SPACE, r.below(total + 1), 0});
        else
            one({k == 0 ? Fault::WRITE_ONCE : k == 1 ? Fault::WRITE_ALL : Fault::THROW, i, part});
        H::count("write-calls-failed");
    }
    one({Fault::WRITE_ONCE, r.below(first + 1), 0});
    H::count("write-calls", m);
}
static void file_cases(Rng &r, const Job &j)
{
    std::string path = H::tmpdir + "/f" + std::to_string(getpid());
    Outcome o0;
    run_file(j, Plan(), path, o0);
    EXPECT(!o0.reported, "unexpected-failure", o0.where << ": " << o0.first);
    std::string img0 = slurp(path);
    for (int i = 0; i < 6; i++)
    {
        Plan p;
        p.go_on = r.chance(50);
        p.close = r.chance(10) ? 0 : (int)r.range(1, 3);
        Outcome o;
        Fault f{Fault::SPACE, r.chance(60) ? r.below(img0.size() + 1) : img0.size() - r.below(2), 0};
        if (i == 0)
            f.at = img0.size() + 100;
        unlink(path.c_str());
        limit_size(f.at);
        run_file(j, p, path, o);
        limit_size(RLIM_INFINITY);
        judge(j, f, f.at < img0.size(), same_file(slurp(path), img0, j.copc), p, o, true, j.copc ? "copc-file" : "laz-file");
        H::count("fault-runs");
    }
    unlink(path.c_str());
    Plan p;
    p.close = (int)r.range(1, 2);
    // a device that takes nothing
    {
        Outcome o;
        run_file(j, p, "/dev/full", o);
        judge(j, {Fault::SPACE, 0, 0}, true, false, p, o, true, "dev-full");
    }
    // nothing to write to
    for (auto &bad : {H::tmpdir, H::tmpdir + "/no/such/dir/x.laz", std::string("")})
    {
        Outcome o;
        run_file(j, p, bad, o);
        EXPECT(o.reported && o.where == "open", "unopenable-accepted", "writing to '" << bad << "' was not refused on opening");
        H::count("unopenable");
    }
}
static void case_c23(Rng &r)
{
    Job j = rand_job(r, true);
    FaultBuf b0;
    {
        std::ostream os(&b0);
        Outcome o;
        run_stream(j, Plan(), os, b0, o);
        EXPECT(!o.reported, "unexpected-failure", o.where << ": " << o.first);
        FaultBuf b1({}, 64);
        std::ostream os1(&b1);
        run_stream(j, Plan(), os1, b1, o);
        EXPECT(same_file(b1.data, b0.data, j.copc), "nondeterministic", "the same history gives different files");
    }
    stream_cases(r, j, b0.data, b0);
    if (r.chance(40))
        file_cases(r, j);
    H::sig(H::hashs(b0.data));
    H::sample(where(j, {}, false) + " " + std::to_string(b0.events.size()) + " write events, " + std::to_string(b0.data.size()) + " bytes");
}

// ------------------------------------------------------------------ C28
struct Want
{
    KeyMap<MNode> nodes;
    Bytes all; // in write order
    uint64_t points{0};
    std::string wkt;
};
static int check_copc(const std::string &img, const Want &w, const std::string &how, bool full)
{
    std::istringstream in(img);
    std::unique_ptr<copc::Reader> rd;
    if (throws([&] { rd = std::make_unique<copc::Reader>(&in); }))
        return 0;
    int answers = 0;
    auto q = [&](const char *what, std::function<bool()> f)
    {
        bool same = true;
        if (!throws([&] { same = f(); }))
            answers++;
        EXPECT(same, "copc-" + std::string(what) + ":" + how, what << " on an image of " << img.size() << " bytes (" << how << ") answered other than what was written");
    };
    q("nodes", [&]
      {
          auto ns = rd->GetAllNodes();
          if (ns.size() != w.nodes.size())
              return false;
          for (auto &n : ns)
          {
              auto it = w.nodes.find(n.key);
              if (it == w.nodes.end() || n.point_count != it->second.returned.point_count)
                  return false;
          }
          return true;
      });
    size_t i = 0;
    for (auto &n : w.nodes)
    {
        if (i++ > 6 && !full)
            break;
        q("find", [&] { return rd->FindNode(n.first).IsValid(); });
        q("data", [&] { return rd->GetPointData(n.first) == n.second.raw; });
        q("points", [&] { return rd->GetPoints(n.first).Size() == n.second.raw.size() / (n.second.raw.size() / n.second.returned.point_count); });
        q("packed", [&] { return rd->GetPointDataCompressed(n.first) == n.second.packed; });
    }
    q("all-points", [&] { return rd->GetAllPoints().Size() == w.points; });
    q("box", [&] { return rd->GetPointsWithinBox(copc::Box::MaxBox()).Size() == w.points; });
    q("wkt", [&] { return rd->CopcConfig().Wkt() == w.wkt; });
    return 1 + answers;
}
static int check_laz_img(const std::string &img, const Want &w, const std::string &how)
{
    std::istringstream in(img);
    std::unique_ptr<copc::laz::LazReader> rd;
    if (throws([&] { rd = std::make_unique<copc::laz::LazReader>(&in); }))
        return 0;
    int answers = 0;
    bool same = true;
    if (!throws([&] { same = rd->GetPointData() == w.all; }))
        answers++;
    EXPECT(same, "laz-data:" + how, "the points of an image of " << img.size() << " bytes (" << how << ") read other than written");
    if (!throws([&] { same = rd->GetPoints().Size() == w.points; }))
        answers++;
    EXPECT(same, "laz-points:" + how, "an image of " << img.size() << " bytes (" << how << ") has other points than written");
    if (!throws([&] { same = rd->LazConfig().Wkt() == w.wkt; }))
        answers++;
    EXPECT(same, "laz-wkt:" + how, "an image of " << img.size() << " bytes (" << how << ") has another WKT than written");
    return 1 + answers;
}
// A process that dies while it replaces an older, complete file
template <typename Check> static void died_writing(Rng &r, const Job &j, const Want &w, const std::string &img0, Check &&check)
{
    std::string path = H::tmpdir + "/d" + std::to_string(getpid());
    Job old = rand_job(r, true);
    Outcome o;
    run_file(old, Plan(), path, o);
    EXPECT(!o.reported, "unexpected-failure", o.where << ": " << o.first);
    if (r.chance(50)) // longer than what replaces it
    {
        std::ofstream f(path, std::ios::binary | std::ios::app);
        f << std::string(img0.size(), 'x');
    }
    Job cut = j;
    bool by_size = r.chance(60), finish = r.chance(15);
    if (!by_size && !finish)
    {
        cut.s.ops.resize(r.below(cut.s.ops.size() + 1));
        cut.l.resize(r.below(cut.l.size() + 1));
        if (cut.s.meta_at > (int)cut.s.ops.size())
            cut.s.meta_at = -1;
    }
    rlim_t lim = r.below(img0.size());
    if (finish)
    {
        Outcome f;
        run_file(j, Plan(), path, f);
        EXPECT(!f.reported && same_file(slurp(path), img0, j.copc), "replaced-file", "a file written over another one differs from one written to a new path");
        H::count("replaced");
        unlink(path.c_str());
        return;
    }
    fflush(H::out);
    pid_t pid = fork();
    if (pid == 0)
    {
        setitimer(ITIMER_PROF, nullptr, nullptr);
        if (by_size)
        {
            signal(SIGXFSZ, SIG_DFL);
            limit_size(lim);
        }
        Outcome f;
        Plan p;
        p.die = !by_size;
        run_file(cut, p, path, f);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    EXPECT(WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) == 0), "child", "the writing process ended with " << st);
    std::string img = slurp(path);
    H::note("death", std::string(by_size ? "size" : "exit") + (WIFSIGNALED(st) ? " signal" : ""));
    if (img != img0)
        check(img, "died");
    H::count("deaths");
    unlink(path.c_str());
}
static void case_c28(Rng &r)
{
    Job j = rand_job(r, true);
    Want w;
    w.wkt = j.s.cfg.wkt;
    FaultBuf b;
    std::vector<std::pair<uint64_t, std::string>> marks; // bytes logged when a phase began
    {
        std::ostream os(&b);
        if (j.copc)
        {
            auto cfg = make_cfg(j.s.cfg);
            if (j.s.meta_at < 0)
                set_meta(cfg, j.s.meta);
            copc::Writer wr(os, cfg);
            marks.push_back({b.log.size(), "chunks"});
            Model m;
            run_ops(wr, j.s, m, true, [] { return 0; }, "");
            marks.push_back({b.log.size(), "closing"});
            wr.Close();
            w.nodes = m.nodes;
            w.points = m.points;
            std::vector<std::pair<uint64_t, const MNode *>> order;
            for (auto &n : w.nodes)
                order.push_back({n.second.returned.offset, &n.second});
            std::sort(order.begin(), order.end());
            for (auto &o : order)
                w.all.insert(w.all.end(), o.second->raw.begin(), o.second->raw.end());
        }
        else
        {
            auto &c = j.s.cfg;
            copc::las::LazConfigWriter lc(c.fmt, c.scale, c.offset, c.wkt, c.eb);
            apply_header(*lc.LasHeader(), j.s.meta);
            copc::laz::LazWriter wr(os, lc);
            marks.push_back({b.log.size(), "chunks"});
            for (auto &o : j.l)
            {
                laz_op(wr, j, o);
                Bytes raw = to_raw(o.pts, c.fmt);
                w.all.insert(w.all.end(), raw.begin(), raw.end());
                w.points += o.pts.size();
            }
            marks.push_back({b.log.size(), "closing"});
            wr.Close();
        }
    }
    // the finished image answers everything
    auto check = [&](const std::string &img, const std::string &how)
    {
        int a = 0;
        if (j.copc)
        {
            a = check_copc(img, w, how, false);
            H::note("copc-answers " + how, std::to_string(std::min(a, 9)));
        }
        int l = check_laz_img(img, w, how);
        H::note("laz-answers " + how, std::to_string(l));
        H::count("images");
        if (a + l == 0)
            H::count("images-refused");
        else
            H::count("images-opened");
        return a + l;
    };
    int full = check(b.data, "finished");
    EXPECT(full == (j.copc ? 1 + 4 + 4 * (int)std::min<size_t>(w.nodes.size(), 7) : 0) + 4, "finished-refused", "only " << full << " answers on the finished image");
    if (w.points == 0)
        H::count("empty-files");

    // prefixes in write order
    std::string img;
    uint64_t logged = 0;
    size_t mark = 0;
    std::string phase = "reserve";
    // events that go back in the file: the header pass, examined byte by byte
    uint64_t header_from = b.log.size();
    {
        uint64_t at = b.log.size();
        for (size_t i = b.events.size(); i-- > 0;)
        {
            at -= b.events[i].size;
            if (b.events[i].pos == 0 && at > 0)
            {
                header_from = at;
                break;
            }
        }
    }
    auto put = [&](const Event &e, uint64_t from, uint64_t n)
    {
        if (img.size() < e.pos + from + n)
            img.resize(e.pos + from + n, 0);
        memcpy(&img[e.pos + from], &b.log[logged + from], n);
    };
    // byte stride in the header pass: every byte in one case of eight, else a few
    uint64_t stride = H::thorough || r.chance(12) ? 1 : r.range(7, 60);
    for (auto &e : b.events)
    {
        while (mark < marks.size() && logged >= marks[mark].first)
            phase = marks[mark++].second;
        bool head = logged >= header_from;
        std::string how = head ? "header pass" : phase;
        uint64_t done = 0;
        std::vector<uint64_t> cuts;
        if (head)
        {
            for (uint64_t c = r.below(stride); c < e.size; c += stride)
                if (c)
                    cuts.push_back(c);
        }
        else if (e.size > 1 && r.chance(30))
            cuts.push_back(1 + r.below(e.size - 1));
        for (auto c : cuts)
        {
            put(e, done, c - done);
            done = c;
            if (img != b.data)
                check(img, how + " (within)");
        }
        put(e, done, e.size - done);
        logged += e.size;
        // the last events may leave nothing to be done
        if (img != b.data)
            check(img, how);
        else
            H::count("images-complete");
        H::count("write-events");
    }
    EXPECT(img == b.data, "log", "replaying the write log does not give the file");

    // truncations of the finished file
    std::vector<uint64_t> cuts;
    uint64_t n = b.data.size();
    L::Parsed P = L::parse(b.data, j.copc);
    auto around = [&](uint64_t p)
    {
        for (int d = -1; d <= 1; d++)
            if (p + d < n)
                cuts.push_back(p + d);
    };
    around(0), around(4), around(375), around(n);
    for (auto *v : {&P.vlrs, &P.evlrs})
        for (auto &x : *v)
            around(x.payload), around(x.payload + x.size);
    for (auto &c : P.chunks)
        around(c.offset), around(c.offset + c.size);
    for (int i = 0; i < 20; i++)
        cuts.push_back(r.below(n));
    for (auto c : cuts)
    {
        check(b.data.substr(0, c), "truncated");
        H::count("truncations");
    }
    if (r.chance(15))
        died_writing(r, j, w, b.data, check);
    H::sig(H::hashs(b.data));
    H::sample(where(j, {}, false) + " " + std::to_string(b.events.size()) + " write events, " + std::to_string(n) + " bytes, " + std::to_string(b.log.size() - header_from) + " of them in the header pass");
}

void once_begin() { signal(SIGXFSZ, SIG_IGN); }
void run_case(uint64_t, Rng &r)
{
    if (H::mode == "C23")
        case_c23(r);
    else
        case_c28(r);
}
