// C11 keys, C12 boxes, C16 vectors, C17 header scale and bounds, C18 extents.
#include "gen.hpp"
#include <unordered_map>
#include <unordered_set>
using namespace G;
using copc::CopcExtent;
using copc::CopcExtents;
using copc::las::LasHeader;

static double ax(const Vector3 &v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
static bool same(double a, double b) { return !memcmp(&a, &b, 8) || (std::isnan(a) && std::isnan(b)) || (a == 0 && b == 0); }

// ---- C11
static VoxelKey any_key(Rng &r)
{
    int d = r.chance(60) ? (int)r.below(10) : (int)r.below(32);
    int64_t lim = (int64_t)1 << d;
    auto c = [&]() -> int32_t
    {
        switch (r.below(4))
        {
        case 0: return 0;
        case 1: return (int32_t)(lim - 1);
        default: return (int32_t)r.below(lim);
        }
    };
    int32_t x = c(), y = c(), z = c();
    return VoxelKey(d, x, y, z);
}
static void case_c11(Rng &r)
{
    VoxelKey k = any_key(r);
    EXPECT(k.IsValid() && k == k && !(k != k), "validity", ks(k));
    // children
    if (k.d < 31 && k.x < (1 << 30) && k.y < (1 << 30) && k.z < (1 << 30))
    {
        auto ch = k.GetChildren();
        EXPECT(ch.size() == 8, "children-count", ch.size());
        KeySet s;
        for (int i = 0; i < 8 && i < (int)ch.size(); i++)
        {
            VoxelKey w(k.d + 1, k.x * 2 + (i & 1), k.y * 2 + (i >> 1 & 1), k.z * 2 + (i >> 2 & 1));
            EXPECT(ch[i] == w, "child", "child " << i << " of " << ks(k) << " is " << ks(ch[i]) << " want " << ks(w));
            EXPECT(k.Bisect(i) == w, "bisect", "Bisect(" << i << ") of " << ks(k) << " is " << ks(k.Bisect(i)));
            EXPECT(k.Bisect(i | (r.next() << 3)) == w, "bisect-high-bits", "only the low three bits select the octant");
            EXPECT(ch[i].GetParent() == k, "parent-of-child", ks(ch[i]));
            EXPECT(ch[i].ChildOf(k) && !k.ChildOf(ch[i]), "child-of", ks(ch[i]));
            s.insert(ch[i]);
        }
        EXPECT(s.size() == 8, "children-distinct", ks(k));
        H::count("children", 8);
    }
    // parents
    VoxelKey p = k.GetParent();
    if (k.d == 0)
        EXPECT(!p.IsValid(), "parent-of-root", ks(p));
    else
        EXPECT(p == up(k, 1) && p.IsValid(), "parent", ks(k) << " has parent " << ks(p));
    for (int self = 0; self < 2; self++)
    {
        auto v = r.chance(50) && !self ? k.GetParents() : k.GetParents(self);
        EXPECT((int)v.size() == k.d + self, "parents-count", ks(k) << (self ? " with itself" : "") << ": " << v.size());
        for (size_t i = 0; i < v.size(); i++)
            EXPECT(v[i] == up(k, (int)i + 1 - self), "parents", "ancestor " << i << " of " << ks(k) << " is " << ks(v[i]));
    }
    for (int d = 0; d <= k.d; d++)
        EXPECT(k.GetParentAtDepth(d) == up(k, k.d - d), "parent-at-depth", ks(k) << " at " << d << ": " << ks(k.GetParentAtDepth(d)));
    for (int d : {-1, k.d + 1, INT32_MAX, INT32_MIN})
        EXPECT(throws([&] { k.GetParentAtDepth(d); }), "parent-depth-accepted", ks(k) << " at " << d);
    // ancestry between keys
    for (int i = 0; i < 12; i++)
    {
        VoxelKey o;
        switch (r.below(5))
        {
        case 0: o = any_key(r); break;
        case 1: o = up(k, (int)r.below(k.d + 1)); break;
        case 2:
            o = up(k, (int)r.below(k.d + 1));
            (r.chance(33) ? o.x : r.chance(50) ? o.y : o.z) ^= 1;
            break;
        case 3:
            o = up(k, (int)r.below(k.d + 1));
            o.d += r.chance(50) ? 1 : -1;
            break;
        default:
            o = k;
            std::swap(o.x, o.z);
        }
        bool want = o.IsValid() && is_anc(o, k);
        EXPECT(k.ChildOf(o) == want, "ancestry", ks(k) << " is " << (want ? "" : "not ") << "below " << ks(o));
        EXPECT((k == o) == (k.d == o.d && k.x == o.x && k.y == o.y && k.z == o.z) && (k != o) == !(k == o), "equality", ks(k) << " " << ks(o));
        H::count("ancestry");
        H::note("ancestry-answer", want ? "yes" : "no");
    }
    // invalid keys
    {
        VoxelKey b = k;
        int w = (int)r.below(4);
        (w == 0 ? b.d : w == 1 ? b.x : w == 2 ? b.y : b.z) = r.oneof<int32_t>({-1, -2, INT32_MIN, -1000});
        EXPECT(!b.IsValid() && b.GetParents().empty() && b.GetParents(true).empty() && !b.GetParent().IsValid() && !b.GetParentAtDepth(0).IsValid() && !b.ChildOf(k) && !b.ChildOf(b) && !k.ChildOf(b),
               "invalid-key", ks(b) << " is treated as valid");
        EXPECT(!VoxelKey().IsValid() && VoxelKey() == VoxelKey::InvalidKey() && VoxelKey::RootKey().IsValid() && VoxelKey::RootKey() == VoxelKey(0, 0, 0, 0), "named-keys", "");
    }
    // hash, set membership, text, list construction
    VoxelKey c(std::vector<int32_t>{k.d, k.x, k.y, k.z});
    EXPECT(c == k && std::hash<VoxelKey>()(c) == std::hash<VoxelKey>()(k), "hash", "equal keys with other hashes: " << ks(k));
    size_t bad = r.oneof({0, 1, 2, 3, 5, 8});
    EXPECT(throws([&] { VoxelKey x{std::vector<int32_t>(bad, 1)}; }), "list-length", "a key from " << bad << " numbers");
    std::ostringstream t, w;
    t << k;
    w << "(" << k.d << ", " << k.x << ", " << k.y << ", " << k.z << ")";
    EXPECT(t.str() == w.str() && k.ToString() == w.str(), "text", t.str() << " want " << w.str());
    std::unordered_set<VoxelKey> us;
    KeySet ref;
    for (int i = 0; i < 20; i++)
    {
        VoxelKey q = r.chance(50) ? any_key(r) : up(k, (int)r.below(k.d + 1));
        us.insert(q);
        ref.insert(q);
    }
    EXPECT(us.size() == ref.size(), "hash-set", us.size() << " distinct keys, want " << ref.size());
    for (auto &q : ref)
        EXPECT(us.count(q) == 1, "hash-set", ks(q) << " is lost");
    H::note("depth", std::to_string(k.d));
    H::sig(H::hashs(ks(k)));
    H::sample(ks(k));
}

// ---- C12
struct B
{
    double lo[3], hi[3];
};
static B vals(const Box &b) { return {{b.x_min, b.y_min, b.z_min}, {b.x_max, b.y_max, b.z_max}}; }
static Box to_box(Rng &r, const B &b)
{
    switch (r.below(3))
    {
    case 0: return Box(b.lo[0], b.lo[1], b.lo[2], b.hi[0], b.hi[1], b.hi[2]);
    case 1: return Box(Vector3(b.lo[0], b.lo[1], b.lo[2]), Vector3(b.hi[0], b.hi[1], b.hi[2]));
    default: return Box(std::vector<double>{b.lo[0], b.lo[1], b.lo[2], b.hi[0], b.hi[1], b.hi[2]});
    }
}
static bool eq(const B &a, const B &b)
{
    for (int i = 0; i < 3; i++)
        if (!same(a.lo[i], b.lo[i]) || !same(a.hi[i], b.hi[i]))
            return false;
    return true;
}
static void case_c12(Rng &r)
{
    const double M = std::numeric_limits<double>::max();
    auto rnd = [&]() -> double { return r.chance(60) ? (double)r.range(-4, 4) : r.chance(50) ? rand_finite(r) : (r.chance(50) ? M : -M); };
    auto rb = [&]
    {
        B b;
        for (int i = 0; i < 3; i++)
        {
            b.lo[i] = rnd(), b.hi[i] = r.chance(15) ? b.lo[i] : rnd();
            if (b.lo[i] > b.hi[i])
                std::swap(b.lo[i], b.hi[i]);
        }
        return b;
    };
    B a = rb(), b = rb();
    if (r.chance(40)) // relate them per axis: touching, nested, apart
        for (int i = 0; i < 3; i++)
            switch (r.below(6))
            {
            case 0: b.lo[i] = a.lo[i]; b.hi[i] = a.hi[i]; break;
            case 1: b.lo[i] = a.hi[i]; b.hi[i] = std::max(b.hi[i], a.hi[i]); break;
            case 2: b.hi[i] = a.lo[i]; b.lo[i] = std::min(b.lo[i], a.lo[i]); break;
            case 3: b.lo[i] = std::min(a.lo[i], b.lo[i]); b.hi[i] = std::max(a.hi[i], b.hi[i]); break;
            case 4: b.lo[i] = std::max(a.lo[i], std::min(b.lo[i], a.hi[i])); b.hi[i] = a.hi[i]; break;
            }
    Box A = to_box(r, a), C = to_box(r, b);
    EXPECT(eq(vals(A), a) && eq(vals(C), b), "constructor", "a box has other sides than given: " << A.ToString());
    bool inter = true, cont = true, with = true;
    for (int i = 0; i < 3; i++)
    {
        inter = inter && std::max(a.lo[i], b.lo[i]) <= std::min(a.hi[i], b.hi[i]);
        cont = cont && a.lo[i] <= b.lo[i] && b.hi[i] <= a.hi[i];
        with = with && b.lo[i] <= a.lo[i] && a.hi[i] <= b.hi[i];
    }
    EXPECT(A.Intersects(C) == inter && C.Intersects(A) == inter, "intersects", A << " and " << C << " want " << inter);
    EXPECT(A.Contains(C) == cont && C.Within(A) == cont, "contains", A << " of " << C << " want " << cont);
    EXPECT(A.Within(C) == with && C.Contains(A) == with, "within", A << " in " << C << " want " << with);
    EXPECT(A.Contains(A) && A.Within(A) && A.Intersects(A), "reflexive", A);
    H::note("relation", std::string(inter ? "i" : "-") + (cont ? "c" : "-") + (with ? "w" : "-"));
    for (int i = 0; i < 4; i++)
    {
        double v[3];
        bool in = true;
        for (int k = 0; k < 3; k++)
        {
            v[k] = r.chance(30) ? a.lo[k] : r.chance(40) ? a.hi[k] : rnd();
            in = in && a.lo[k] <= v[k] && v[k] <= a.hi[k];
        }
        EXPECT(A.Contains(Vector3(v[0], v[1], v[2])) == in, "contains-point", A << " point " << v[0] << "," << v[1] << "," << v[2] << " want " << in);
        auto pt = copc::las::Point((int8_t)6);
        pt.X(v[0]), pt.Y(v[1]), pt.Z(v[2]);
        EXPECT(pt.Within(A) == in, "point-within", A << " point " << v[0] << "," << v[1] << "," << v[2]);
    }
    EXPECT(Box::MaxBox().Contains(A) && A.Within(Box::MaxBox()), "max-box", A);
    B z{};
    EXPECT(eq(vals(Box::EmptyBox()), z) && eq(vals(Box()), z), "empty-box", "");
    Box d2 = r.chance(50) ? Box(a.lo[0], a.lo[1], a.hi[0], a.hi[1]) : Box(std::vector<double>{a.lo[0], a.lo[1], a.hi[0], a.hi[1]});
    B w2 = a;
    w2.lo[2] = -M, w2.hi[2] = M;
    EXPECT(eq(vals(d2), w2), "box-2d", d2);
    // malformed
    {
        int k = (int)r.below(3);
        B m = a;
        m.hi[k] = (double)r.range(-5, 5), m.lo[k] = m.hi[k] + r.oneof({1.0, 1e-3, 1e9});
        EXPECT(throws([&] { to_box(r, m); }) && throws([&] { to_box(r, m); }), "reversed-accepted", "axis " << k);
        if (k < 2)
            EXPECT(throws([&] { Box(m.lo[0], m.lo[1], m.hi[0], m.hi[1]); }) && throws([&] { Box(std::vector<double>{m.lo[0], m.lo[1], m.hi[0], m.hi[1]}); }), "reversed-accepted", "2d axis " << k);
        size_t n = r.oneof({0, 1, 2, 3, 5, 7, 12});
        EXPECT(throws([&] { Box x(std::vector<double>(n, 0.0)); }), "list-length", n);
    }
    // text
    {
        std::ostringstream t;
        t << A;
        EXPECT(t.str() == A.ToString(), "text", t.str());
        double got[6];
        int n = sscanf(t.str().c_str(), "Box: x_min=%lf y_min=%lf z_min=%lf x_max=%lf y_max=%lf z_max=%lf", got, got + 1, got + 2, got + 3, got + 4, got + 5);
        EXPECT(n == 6 && got[0] == a.lo[0] && got[1] == a.lo[1] && got[2] == a.lo[2] && got[3] == a.hi[0] && got[4] == a.hi[1] && got[5] == a.hi[2], "text", t.str());
    }
    // node cubes
    {
        bool exact = r.chance(50);
        LasHeader h(6, 30, Vector3(1, 1, 1), Vector3(0, 0, 0), true);
        double e[3], mn[3];
        for (int i = 0; i < 3; i++)
        {
            mn[i] = exact ? (double)r.range(-4096, 4096) : rand_finite(r);
            if (!exact && std::fabs(mn[i]) > 1e9)
                mn[i] = (double)r.range(-1000000, 1000000) * 0.37;
            e[i] = exact ? (double)(1 << r.below(13)) : r.unit() * 5000 + 1e-3;
        }
        h.min = Vector3(mn[0], mn[1], mn[2]);
        h.max = Vector3(mn[0] + e[0], mn[1] + e[1], mn[2] + e[2]);
        double span = std::max({h.max.x - h.min.x, h.max.y - h.min.y, h.max.z - h.min.z});
        VoxelKey k = r.chance(75) ? random_key(r, 12) : random_key(r, 31);
        if (exact && k.d > 25) // the grid stays exact
            k = up(k, k.d - 25);
        Box nb(k, h);
        double side = std::ldexp(span, -k.d);
        B w, g = vals(nb);
        int idx[3] = {k.x, k.y, k.z};
        double err = 0;
        for (int i = 0; i < 3; i++)
        {
            w.lo[i] = mn[i] + side * idx[i];
            w.hi[i] = mn[i] + side * (idx[i] + 1);
            err = std::max({err, std::fabs(w.lo[i] - g.lo[i]), std::fabs(w.hi[i] - g.hi[i])});
        }
        double tol = exact ? 0 : 1e-11 * (std::fabs(mn[0]) + std::fabs(mn[1]) + std::fabs(mn[2]) + span);
        EXPECT(err <= tol, "node-cube", ks(k) << " span " << span << ": " << nb << " off by " << err);
        if (exact)
        {
            // parents contain children, siblings only touch
            if (k.d > 0)
                EXPECT(nb.Within(Box(up(k, 1), h)) && Box(up(k, 1), h).Contains(nb), "cube-nesting", ks(k));
            VoxelKey sib = k;
            int axis = (int)r.below(3);
            (axis == 0 ? sib.x : axis == 1 ? sib.y : sib.z) += 1;
            EXPECT(nb.Intersects(Box(sib, h)), "cube-neighbour", ks(k));
            (axis == 0 ? sib.x : axis == 1 ? sib.y : sib.z) += 1;
            EXPECT(!nb.Intersects(Box(sib, h)), "cube-neighbour", ks(k) << " meets a cube two further");
            // key predicates against a query box on the same grid
            B q;
            for (int i = 0; i < 3; i++)
            {
                q.lo[i] = mn[i] + side * ((double)idx[i] + (double)r.range(-3, 3) / 2);
                q.hi[i] = q.lo[i] + side * (double)r.range(0, 5) / 2;
            }
            if (r.chance(10))
                for (int i = 0; i < 3; i++)
                    q.lo[i] = w.lo[i], q.hi[i] = w.hi[i];
            Box Q = to_box(r, q);
            bool qi = true, qc = true, qw = true;
            for (int i = 0; i < 3; i++)
            {
                qi = qi && q.lo[i] <= w.hi[i] && w.lo[i] <= q.hi[i];
                qc = qc && w.lo[i] <= q.lo[i] && q.hi[i] <= w.hi[i];
                qw = qw && q.lo[i] <= w.lo[i] && w.hi[i] <= q.hi[i];
            }
            EXPECT(k.Intersects(h, Q) == qi, "key-intersects", ks(k) << " " << nb << " with " << Q << " want " << qi);
            EXPECT(k.Contains(h, Q) == qc, "key-contains", ks(k) << " " << nb << " with " << Q << " want " << qc);
            EXPECT(k.Within(h, Q) == qw, "key-within", ks(k) << " " << nb << " with " << Q << " want " << qw);
            EXPECT(k.Crosses(h, Q) == (qi && !qw), "key-crosses", ks(k) << " " << nb << " with " << Q << " want " << (qi && !qw));
            Vector3 v(q.lo[0], q.lo[1], q.lo[2]);
            bool pin = true;
            for (int i = 0; i < 3; i++)
                pin = pin && w.lo[i] <= q.lo[i] && q.lo[i] <= w.hi[i];
            EXPECT(k.Contains(h, v) == pin, "key-contains-point", ks(k) << " " << v);
            H::note("key-relation", std::string(qi ? "i" : "-") + (qc ? "c" : "-") + (qw ? "w" : "-"));
        }
        copc::CopcInfo info;
        info.spacing = exact ? (double)(1 << r.below(12)) : r.unit() * 100 + 1e-3;
        double res = k.Resolution(h, info), want = std::ldexp(info.spacing, -k.d);
        EXPECT(std::fabs(res - want) <= 1e-14 * want && VoxelKey::GetResolutionAtDepth(k.d, h, info) == res, "resolution", ks(k) << " " << res << " want " << want);
        H::count("cubes");
        H::note("cube-depth", std::to_string(k.d));
    }
    H::sig(H::hashs(A.ToString() + C.ToString()));
    H::sample(A.ToString() + " / " + C.ToString());
}

// ---- C16
static void case_c16(Rng &r)
{
    auto num = [&]() -> double
    {
        static const double sp[] = {0.0, -0.0, 1, -1, INFINITY, -INFINITY, NAN, 1e308, -1e308, 5e-324, 0.1};
        return r.chance(25) ? sp[r.below(11)] : rand_finite(r);
    };
    double a[3], b[3], d = num();
    for (int i = 0; i < 3; i++)
        a[i] = num(), b[i] = r.chance(15) ? a[i] : num();
    const Vector3 A = r.chance(50) ? Vector3(a[0], a[1], a[2]) : Vector3(std::vector<double>{a[0], a[1], a[2]});
    const Vector3 C(b[0], b[1], b[2]);
    auto chk = [&](const Vector3 &g, std::function<double(int)> f, const char *n)
    {
        for (int i = 0; i < 3; i++)
            EXPECT(same(ax(g, i), f(i)), n, n << " component " << i << ": " << ax(g, i) << " want " << f(i) << " for " << A << " " << C << " " << d);
    };
    chk(A, [&](int i) { return a[i]; }, "construction");
    chk(Vector3(), [&](int) { return 0.0; }, "default");
    chk(A + C, [&](int i) { return a[i] + b[i]; }, "add");
    chk(A - C, [&](int i) { return a[i] - b[i]; }, "subtract");
    chk(A * C, [&](int i) { return a[i] * b[i]; }, "multiply");
#if defined(__clang__)
    auto div = [](double x, double y) __attribute__((no_sanitize("float-divide-by-zero"))) { return x / y; };
#else
    auto div = [](double x, double y) { return x / y; };
#endif
    chk(A / C, [&](int i) { return div(a[i], b[i]); }, "divide");
    chk(A + d, [&](int i) { return a[i] + d; }, "add-scalar");
    chk(A - d, [&](int i) { return a[i] - d; }, "subtract-scalar");
    chk(A * d, [&](int i) { return a[i] * d; }, "multiply-scalar");
    chk(A / d, [&](int i) { return div(a[i], d); }, "divide-scalar");
    chk(A, [&](int i) { return a[i]; }, "operand-changed");
    chk(C, [&](int i) { return b[i]; }, "operand-changed");
    bool eqv = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
    EXPECT((A == C) == eqv && (A != C) == !eqv && (C == A) == eqv, "equality", A << " " << C);
    bool self = !(std::isnan(a[0]) || std::isnan(a[1]) || std::isnan(a[2]));
    EXPECT((A == A) == self, "equality", A << " with itself");
    for (int i = 0; i < 3; i++) // one component differs
    {
        double c[3] = {1, 2, 3}, e[3] = {1, 2, 3};
        e[i] += r.chance(50) ? 1e-13 : num() + 17;
        if (e[i] != c[i])
            EXPECT(Vector3(c[0], c[1], c[2]) != Vector3(e[0], e[1], e[2]), "equality", "component " << i << " is not compared");
    }
    std::ostringstream t;
    int prec = (int)r.range(2, 20);
    t.precision(prec);
    t << A;
    EXPECT(t.str() == A.ToString(), "text", t.str());
    double g[3];
    EXPECT(sscanf(A.ToString().c_str(), "(%lf, %lf, %lf)", g, g + 1, g + 2) == 3 && same(g[0], a[0]) && same(g[1], a[1]) && same(g[2], a[2]), "text", A.ToString());
    size_t n = r.oneof({0, 1, 2, 4, 5, 9});
    EXPECT(throws([&] { Vector3 x(std::vector<double>(n, 1.0)); }), "list-length", n);
    EXPECT(Vector3::DefaultScale() == Vector3(0.01, 0.01, 0.01) && Vector3::DefaultOffset() == Vector3(0, 0, 0), "defaults", "");
    EXPECT(t.precision() == prec, "stream-changed", "printing changed the stream's precision");
    H::count("operations", 8);
    H::sig(H::hashs(A.ToString() + C.ToString()));
    H::sample(A.ToString() + " " + C.ToString());
}

// ---- C17
static void case_c17(Rng &r)
{
    Vector3 s = rand_scale(r), o = rand_offset(r);
    if (r.chance(20))
        s = Vector3(1.0 / (double)(1 << r.below(10)), (double)(1 << r.below(4)), 0.5), o = Vector3((double)r.range(-100, 100), 7, -3);
    int fmt = (int)r.range(6, 8), ebn = (int)r.below(30);
    LasHeader h((int8_t)fmt, (uint16_t)(base_size(fmt) + ebn), s, o, r.chance(50));
    EXPECT(h.PointFormatId() == fmt && h.PointRecordLength() == base_size(fmt) + ebn && h.EbByteSize() == ebn && h.Scale() == s && h.Offset() == o, "construction", h.ToString());
    int32_t v[3];
    for (int i = 0; i < 3; i++)
        v[i] = rand_i32(r);
    Vector3 u(v[0], v[1], v[2]), w = h.ApplyScale(u);
    for (int i = 0; i < 3; i++)
    {
        double want = (double)v[i] * ax(s, i) + ax(o, i);
        double one = i == 0 ? h.ApplyScaleX(v[i]) : i == 1 ? h.ApplyScaleY(v[i]) : h.ApplyScaleZ(v[i]);
        double tol = 1e-14 * (std::fabs((double)v[i] * ax(s, i)) + std::fabs(ax(o, i)));
        EXPECT(std::fabs(ax(w, i) - want) <= tol && std::fabs(one - want) <= tol, "apply-scale", "axis " << i << " " << v[i] << " scale " << s << " offset " << o << ": " << ax(w, i) << " / " << one << " want " << want);
        int32_t back = i == 0 ? h.RemoveScaleX(one) : i == 1 ? h.RemoveScaleY(one) : h.RemoveScaleZ(one);
        EXPECT(back == v[i], "remove-scale", "axis " << i << " " << v[i] << " came back as " << back << " scale " << s << " offset " << o);
        double inv = ax(h.ApplyInverseScale(w), i);
        EXPECT(std::fabs(inv - v[i]) <= 1e-6 + 1e-9 * std::fabs((double)v[i]) + 2e-15 * (std::fabs(v[i] * ax(s, i)) + std::fabs(ax(o, i))) / std::fabs(ax(s, i)), "inverse-scale", "axis " << i << " " << v[i] << " came back as " << inv << " scale " << s << " offset " << o);
    }
    // any coordinate: nearest integer or refusal
    for (int k = 0; k < 6; k++)
    {
        int i = (int)r.below(3);
        double val = r.oneof({ax(o, i) + ax(s, i) * (r.unit() * 4e9 - 2e9), ax(o, i) + ax(s, i) * (r.unit() * 1e10 - 5e9), r.chance(50) ? 1e300 : -1e300, (double)NAN, (double)INFINITY, rand_finite(r)});
        long double real = ((long double)val - (long double)ax(o, i)) / (long double)ax(s, i);
        long double slack = 1e-9L + 4e-16L * (fabsl(real) + (fabsl((long double)val) + fabsl((long double)ax(o, i))) / fabsl((long double)ax(s, i)));
        int32_t got = 0;
        bool t = throws([&] { got = i == 0 ? h.RemoveScaleX(val) : i == 1 ? h.RemoveScaleY(val) : h.RemoveScaleZ(val); });
        if (std::isnan(val) || real > 2147483647.5L + slack || real < -2147483648.5L - slack)
            EXPECT(t, "out-of-range", "axis " << i << " " << val << " became " << got);
        else if (real < 2147483647.49L - slack && real > -2147483648.49L + slack)
            EXPECT(!t && fabsl((long double)got - real) <= 0.5L + slack, "nearest", "axis " << i << " " << val << " became " << got << (t ? " (refused)" : "") << " real " << (double)real);
        H::count(t ? "refused" : "converted");
    }
    // bounds
    Vector3 mn(rand_finite(r), rand_finite(r), rand_finite(r)), mx(mn.x + std::fabs(rand_finite(r)), mn.y + std::fabs(rand_finite(r)), mn.z + std::fabs(rand_finite(r)));
    if (r.chance(20))
    {
        double inf = std::numeric_limits<double>::max();
        mn = Vector3(inf, inf, inf), mx = Vector3(-inf, -inf, -inf);
    }
    if (r.chance(20))
        mn = mx = Vector3(0, 0, 0);
    h.min = mn, h.max = mx;
    double lo[3] = {mn.x, mn.y, mn.z}, hi[3] = {mx.x, mx.y, mx.z};
    int n = (int)r.range(1, 12);
    for (int k = 0; k < n; k++)
    {
        copc::las::Point p((int8_t)fmt, (uint16_t)ebn);
        double c[3];
        for (int i = 0; i < 3; i++)
            c[i] = r.chance(30) ? (r.chance(50) ? lo[i] : hi[i]) : rand_finite(r);
        p.X(c[0]), p.Y(c[1]), p.Z(c[2]);
        h.CheckAndUpdateBounds(p);
        for (int i = 0; i < 3; i++)
        {
            lo[i] = std::min(lo[i], c[i]), hi[i] = std::max(hi[i], c[i]);
            EXPECT(ax(h.min, i) == lo[i] && ax(h.max, i) == hi[i], "bounds", "axis " << i << " after point " << k << ": " << ax(h.min, i) << ".." << ax(h.max, i) << " want " << lo[i] << ".." << hi[i]);
        }
        EXPECT(p.X() == c[0] && p.Y() == c[1] && p.Z() == c[2], "bounds-point", "updating the bounds changed the point");
        H::count("bounds-updates");
    }
    double sp = std::max({hi[0] - lo[0], hi[1] - lo[1], hi[2] - lo[2]});
    EXPECT(h.Span() == sp, "span", h.Span() << " want " << sp);
    Box b = h.Bounds();
    EXPECT(b.x_min == lo[0] && b.y_min == lo[1] && b.z_min == lo[2] && b.x_max == hi[0] && b.y_max == hi[1] && b.z_max == hi[2], "bounds-box", b);
    // other header pieces
    uint16_t enc = (uint16_t)r.next();
    h.global_encoding = enc;
    h.SetGpsTimeBit();
    EXPECT(h.global_encoding == (enc | 1), "gps-bit", h.global_encoding);
    {
        int f2 = (int)r.range(6, 8);
        Vector3 s2 = rand_scale(r), o2 = rand_offset(r);
        LasHeader g(h, (int8_t)f2, (uint16_t)(base_size(f2) + 3), s2, o2);
        EXPECT(g.PointFormatId() == f2 && g.EbByteSize() == 3 && g.Scale() == s2 && g.Offset() == o2 && g.min == h.min && g.max == h.max && g.global_encoding == h.global_encoding && g.IsCopc() == h.IsCopc(), "header-copy", g.ToString());
        EXPECT(LasHeader(h, true).IsCopc() && !LasHeader(h, false).IsCopc() && LasHeader(h, false).Scale() == s, "header-copy", "copc flag");
    }
    {
        std::string g = rand_text(r, 16), y = rand_text(r, 32), w2 = rand_text(r, 32), t17(r.range(17, 60), 'x'), t33(r.range(33, 60), 'y');
        h.GUID(g), h.SystemIdentifier(y), h.GeneratingSoftware(w2);
        EXPECT(throws([&] { h.GUID(t17); }) && throws([&] { h.SystemIdentifier(t33); }) && throws([&] { h.GeneratingSoftware(t33); }), "long-text", "a text longer than its field was accepted");
        EXPECT(h.GUID() == g && h.SystemIdentifier() == y && h.GeneratingSoftware() == w2, "texts", "");
    }
    std::ostringstream sm;
    sm << "scale " << s << " offset " << o << " value " << u;
    H::sig(H::hashs(sm.str()));
    H::sample(sm.str());
}

// ---- C18
struct E4
{
    double v[4];
};
static bool eq4(const CopcExtent &e, const E4 &w) { return same(e.minimum, w.v[0]) && same(e.maximum, w.v[1]) && same(e.mean, w.v[2]) && same(e.var, w.v[3]); }
static E4 rnd4(Rng &r)
{
    auto e = rand_extent(r);
    return {{e.minimum, e.maximum, e.mean, e.var}};
}
static void case_c18(Rng &r)
{
    // one extent
    {
        E4 e = rnd4(r);
        EXPECT(eq4(CopcExtent(), {{0, 0, 0, 1}}), "default-extent", CopcExtent());
        EXPECT(eq4(CopcExtent(e.v[0], e.v[1], e.v[2], e.v[3]), e) && eq4(CopcExtent(e.v[0], e.v[1]), {{e.v[0], e.v[1], 0, 1}}), "extent", CopcExtent(e.v[0], e.v[1], e.v[2], e.v[3]));
        EXPECT(eq4(CopcExtent(std::vector<double>(e.v, e.v + 4)), e) && eq4(CopcExtent(std::vector<double>(e.v, e.v + 2)), {{e.v[0], e.v[1], 0, 1}}), "extent-list", CopcExtent(std::vector<double>(e.v, e.v + 4)));
        CopcExtent a(e.v[0], e.v[1], e.v[2], e.v[3]), c(a);
        EXPECT(a == c && !(a != c) && eq4(c, e), "extent-copy", c);
        c = a;
        int k = (int)r.below(4);
        (k == 0 ? c.minimum : k == 1 ? c.maximum : k == 2 ? c.mean : c.var) += 1 + std::fabs(e.v[k]);
        EXPECT(a != c && !(a == c) && eq4(a, e), "extent-equality", "field " << k << " is not compared");
        double up = std::fabs(e.v[0]) + 1;
        EXPECT(throws([&] { CopcExtent x(e.v[0] + up, e.v[0]); }) && throws([&] { CopcExtent x(e.v[0] + up, e.v[0], 1, 1); }) && throws([&] { CopcExtent x(std::vector<double>{e.v[0] + up, e.v[0]}); }) &&
                   throws([&] { CopcExtent x(std::vector<double>{e.v[0] + up, e.v[0], 1, 1}); }),
               "reversed-extent", "minimum above maximum accepted");
        double neg = -r.oneof({1.0, 1e-300, 1e300, 0.25});
        EXPECT(throws([&] { CopcExtent x(e.v[0], e.v[1], 0, neg); }) && throws([&] { CopcExtent x(std::vector<double>{e.v[0], e.v[1], 0, neg}); }), "negative-variance", neg);
        size_t n = r.oneof({0, 1, 3, 5, 6});
        EXPECT(throws([&] { CopcExtent x(std::vector<double>(n, 0.0)); }), "extent-length", n);
    }
    int fmt = (int)r.range(6, 8);
    int ne = (int)r.below(6), stats = (int)r.below(2);
    size_t nd = base_dims(fmt) + ne;
    CopcExtents x((int8_t)fmt, (uint16_t)ne, stats);
    std::vector<E4> m(nd, E4{{0, 0, 0, 1}});
    auto check = [&](CopcExtents &c, const std::vector<E4> &w, const std::string &k)
    {
        EXPECT(c.NumberOfExtents() == w.size() && c.Extents().size() == w.size() && static_cast<const CopcExtents &>(c).Extents().size() == w.size(), k + "-count", c.NumberOfExtents() << " want " << w.size());
        if (c.Extents().size() != w.size())
            return;
        auto all = c.Extents();
        for (size_t i = 0; i < w.size(); i++)
            EXPECT(eq4(*all[i], w[i]), k, "entry " << i << " is " << *all[i] << " want " << w[i].v[0] << "/" << w[i].v[1] << "/" << w[i].v[2] << "/" << w[i].v[3]);
        std::vector<std::shared_ptr<CopcExtent>> named{c.X(), c.Y(), c.Z(), c.Intensity(), c.ReturnNumber(), c.NumberOfReturns(), c.ScannerChannel(), c.ScanDirectionFlag(), c.EdgeOfFlightLine(), c.Classification(), c.UserData(), c.ScanAngle(), c.PointSourceId(), c.GpsTime()};
        int f = c.PointFormatId();
        if (f >= 7)
            named.insert(named.end(), {c.Red(), c.Green(), c.Blue()});
        else
            EXPECT(throws([&] { c.Red(); }) && throws([&] { c.Green(); }) && throws([&] { c.Blue(); }), k + "-rgb", "colour extents in format 6");
        if (f == 8)
            named.push_back(c.Nir());
        else
            EXPECT(throws([&] { c.Nir(); }), k + "-nir", "a NIR extent in format " << f);
        auto eb = c.ExtraBytes();
        EXPECT(named.size() + eb.size() == w.size(), k + "-count", "named " << named.size() << " extra " << eb.size());
        named.insert(named.end(), eb.begin(), eb.end());
        for (size_t i = 0; i < named.size() && i < w.size(); i++)
            EXPECT(eq4(*named[i], w[i]), k + "-named", "dimension " << i << " refers to " << *named[i]);
    };
    EXPECT(x.PointFormatId() == fmt && x.HasExtendedStats() == (bool)stats, "construction", x.ToString());
    EXPECT(CopcExtents::NumberOfExtents((int8_t)fmt, ne) == (int)nd && copc::PointBaseNumberExtents((int8_t)fmt) == base_dims(fmt) && CopcExtents::ByteSize((int8_t)fmt, ne) == nd * 16, "sizes", CopcExtents::ByteSize((int8_t)fmt, ne) << " bytes for " << nd);
    check(x, m, "new");
    auto set = [&](CopcExtents &c, int i, std::shared_ptr<CopcExtent> e)
    {
        switch (i)
        {
        case 0: c.X(e); break;
        case 1: c.Y(e); break;
        case 2: c.Z(e); break;
        case 3: c.Intensity(e); break;
        case 4: c.ReturnNumber(e); break;
        case 5: c.NumberOfReturns(e); break;
        case 6: c.ScannerChannel(e); break;
        case 7: c.ScanDirectionFlag(e); break;
        case 8: c.EdgeOfFlightLine(e); break;
        case 9: c.Classification(e); break;
        case 10: c.UserData(e); break;
        case 11: c.ScanAngle(e); break;
        case 12: c.PointSourceId(e); break;
        case 13: c.GpsTime(e); break;
        case 14: c.Red(e); break;
        case 15: c.Green(e); break;
        case 16: c.Blue(e); break;
        case 17: c.Nir(e); break;
        }
    };
    int n = (int)r.range(5, 30);
    for (int k = 0; k < n; k++)
    {
        E4 e = rnd4(r);
        auto p = std::make_shared<CopcExtent>(e.v[0], e.v[1], e.v[2], e.v[3]);
        int i = (int)r.below(20);
        std::string op = "set-" + std::to_string(i);
        if (i < base_dims(fmt))
        {
            set(x, i, p);
            m[i] = e;
        }
        else if (i < 18)
        {
            op = "refuse-" + std::to_string(i);
            EXPECT(throws([&] { set(x, i, p); }), op, "format " << fmt << " took an extent for dimension " << i);
            H::count("refusals");
        }
        else if (i == 18)
        {
            bool wrong = r.chance(40);
            size_t len = ne;
            if (wrong)
                len = ne == 0 || r.chance(50) ? ne + r.range(1, 3) : r.below(ne);
            std::vector<std::shared_ptr<CopcExtent>> v;
            std::vector<E4> mv;
            for (size_t q = 0; q < len; q++)
            {
                mv.push_back(rnd4(r));
                auto &y = mv.back();
                v.push_back(std::make_shared<CopcExtent>(y.v[0], y.v[1], y.v[2], y.v[3]));
            }
            op = wrong ? "refuse-extra" : "set-extra";
            bool t = throws([&] { x.ExtraBytes(v); });
            EXPECT(t == wrong, op, len << " extents for " << ne << " extra bytes fields");
            if (!wrong)
                std::copy(mv.begin(), mv.end(), m.begin() + base_dims(fmt));
        }
        else
        {
            op = "write-through";
            size_t q = r.below(nd);
            *x.Extents()[q] = *p;
            m[q] = e;
        }
        check(x, m, op);
        H::note("operation", op);
        H::count("operations");
    }
    // serialise, parse
    {
        auto v = x.ToLazPerf(CopcExtent(), CopcExtent(), CopcExtent());
        auto q = x.ToLazPerfExtended();
        EXPECT(v.items.size() == nd && q.items.size() == nd && v.size() == nd * 16 && q.size() == nd * 16, "record-size", v.items.size() << " " << q.items.size());
        for (size_t i = 0; i < nd && i < v.items.size() && i < q.items.size(); i++)
            EXPECT(same(v.items[i].minimum, m[i].v[0]) && same(v.items[i].maximum, m[i].v[1]) && same(q.items[i].minimum, m[i].v[2]) && same(q.items[i].maximum, m[i].v[3]), "record-items", "entry " << i);
        std::ostringstream o;
        v.write(o);
        std::string bytes = o.str();
        std::string want;
        for (auto &e : m)
            want.append((const char *)e.v, 16);
        EXPECT(bytes == want, "record-bytes", bytes.size() << " bytes want " << want.size());
        std::istringstream in(bytes + "tail");
        auto back = copc::las::CopcExtentsVlr::create(in, (int)bytes.size());
        EXPECT(back.items.size() == nd && in.tellg() == (std::streampos)bytes.size(), "record-read", back.items.size() << " entries, stream at " << in.tellg());
        CopcExtents y(back, (int8_t)fmt, (uint16_t)ne, true);
        std::vector<E4> w = m;
        for (auto &e : w)
            e.v[2] = 0, e.v[3] = 1;
        check(y, w, "parsed");
        y.SetExtendedStats(q);
        check(y, m, "parsed-stats");
        auto few = q;
        if (r.chance(50) && !few.items.empty())
            few.items.pop_back();
        else
            few.items.emplace_back();
        EXPECT(throws([&] { y.SetExtendedStats(few); }) && throws([&] { CopcExtents z(few, (int8_t)fmt, (uint16_t)ne); }), "record-length", "a record with " << few.items.size() << " entries for " << nd << " dimensions");
        check(y, m, "refused-stats");
        CopcExtents z(back, (int8_t)fmt, (uint16_t)ne, false);
        EXPECT(throws([&] { z.SetExtendedStats(q); }), "stats-without", "statistics accepted by extents without them");
        auto hd = v.header();
        EXPECT(hd.user_id.substr(0, 4) == "copc" && hd.record_id == 10000 && hd.data_length == nd * 16, "record-header", hd.user_id << " " << hd.record_id << " " << hd.data_length);
    }
    // copies
    {
        CopcExtents y(x);
        check(y, m, "copy");
        EXPECT(y.PointFormatId() == fmt && y.HasExtendedStats() == (bool)stats, "copy", "");
        auto my = m;
        size_t q = r.below(nd);
        E4 e = rnd4(r);
        *y.Extents()[q] = CopcExtent(e.v[0], e.v[1], e.v[2], e.v[3]);
        my[q] = e;
        check(y, my, "copy-changed");
        check(x, m, "copy-source");
        CopcExtents a((int8_t)r.range(6, 8), (uint16_t)r.below(3));
        a = x;
        check(a, m, "assigned");
        q = r.below(nd);
        *a.Extents()[q] = CopcExtent(e.v[0], e.v[1], e.v[2], e.v[3]);
        check(x, m, "assigned-source");
        // to another format / set of extra bytes
        int f2 = (int)r.range(6, 8), ne2 = r.chance(50) ? ne : (int)r.below(6), st2 = (int)r.below(2);
        std::ostringstream sink;
        CopcExtents b(x, (int8_t)f2, (uint16_t)ne2, st2);
        std::vector<E4> w(base_dims(f2) + ne2, E4{{0, 0, 0, 1}});
        for (int i = 0; i < std::min(base_dims(f2), base_dims(fmt)); i++)
            w[i] = m[i];
        if (ne2 == ne)
            for (int i = 0; i < ne; i++)
                w[base_dims(f2) + i] = m[base_dims(fmt) + i];
        check(b, w, "derived");
        EXPECT(b.PointFormatId() == f2 && b.HasExtendedStats() == (bool)st2, "derived", "");
        for (auto &p : b.Extents())
            *p = CopcExtent(e.v[0], e.v[1], e.v[2], e.v[3]);
        check(x, m, "derived-source");
        H::note("derive", std::to_string(fmt) + ">" + std::to_string(f2) + (ne2 == ne ? "" : "e"));
    }
    EXPECT(throws([&] { CopcExtents z((int8_t)r.oneof({0, 5, 9, -1})); }) && throws([&] { CopcExtents z(copc::las::CopcExtentsVlr(14), (int8_t)r.oneof({0, 5, 9, -1})); }), "format-accepted", "");
    std::ostringstream t;
    t << x;
    EXPECT(t.str() == x.ToString(), "text", "");
    H::sig(H::hashs(t.str()));
    H::sample("format " + std::to_string(fmt) + ", " + std::to_string(ne) + " extra bytes fields, " + std::to_string(n) + " operations");
}

void run_case(uint64_t, Rng &r)
{
    if (H::mode == "C11") case_c11(r);
    else if (H::mode == "C12") case_c12(r);
    else if (H::mode == "C16") case_c16(r);
    else if (H::mode == "C17") case_c17(r);
    else if (H::mode == "C18") case_c18(r);
    else abort();
}
