"""C25: what the bindings do, next to what C++ does with the same objects."""
import copy, gc, math, os, pickle, shutil, struct, sys
import numpy as np
import common
from common import H, Violation, expect, integer, real, text

common.parse()
import copclib as copc  # noqa: E402

peek = common.peek_module()
BOUND = tuple(v for v in vars(copc).values() if isinstance(v, type))
WRITERS = (copc.FileWriter, copc.FileReader, copc.LazReader, copc.LazWriter)


# ------------------------------------------------------------------ what an object is
def canon(v):
    if isinstance(v, BOUND) and not isinstance(v, WRITERS):
        return peek.state(v)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return "nan" if v != v else struct.pack("<d", v)
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, WRITERS):
        return type(v).__name__
    return repr(v)


def attempt(f):
    try:
        return ("is", canon(f()))
    except Exception as e:
        return ("raises", type(e).__name__, "" if isinstance(e, TypeError) else str(e))


def same(a, b, key, what):
    expect(a == b, key, lambda: "%s: Python %s, C++ %s" % (what, str(a)[:700], str(b)[:700]))


# ------------------------------------------------------------------ objects
def key_(r):
    if r.random() < 0.1:
        return r.choice([copc.VoxelKey(), copc.VoxelKey.InvalidKey(), copc.VoxelKey(-1, 3, 2, 1), copc.VoxelKey(2, -1, 7, 0)])
    d = r.randint(0, 6) if r.random() < 0.8 else r.randint(0, 31)
    m = min(2 ** d - 1, 2 ** 31 - 1)
    return copc.VoxelKey(d, r.randint(0, m), r.randint(0, m), r.randint(0, m))


def vec_(r, wild=True):
    return copc.Vector3(real(r, wild), real(r, wild), real(r, wild))


def box_(r):
    k = r.random()
    if k < 0.1:
        return copc.Box.MaxBox()
    if k < 0.15:
        return copc.Box.EmptyBox()
    a, b = [sorted([real(r, False), real(r, False)]) for _ in range(3)], None
    return copc.Box(a[0][0], a[1][0], a[2][0], a[0][1], a[1][1], a[2][1])


def node_(r):
    n = copc.Node()
    n.key, n.page_key = key_(r), key_(r)
    n.offset, n.byte_size, n.point_count = integer(r, 0, 2 ** 64 - 1), integer(r, -1, 2 ** 31 - 1), integer(r, -1, 2 ** 31 - 1)
    return n


def page_(r):
    return peek.page(key_(r), integer(r, 0, 2 ** 64 - 1), integer(r, -1, 2 ** 31 - 1), r.random() < 0.5)


def point_(r, fmt=None, eb=None):
    fmt = r.choice([6, 7, 8]) if fmt is None else fmt
    p = copc.Points(fmt, r.choice([0, 0, 1, 3, 8]) if eb is None else eb).CreatePoint()
    for name, kind in ATTRS["Point"].items():
        if kind and r.random() < 0.7 and name not in ("extra_bytes", "rgb", "scan_angle_degrees"):
            try:
                setattr(p, name, KINDS[kind](r))
            except RuntimeError:
                pass
    if p.EbByteSize():
        p.extra_bytes = [r.randrange(256) for _ in range(p.EbByteSize())]
    p.x, p.y, p.z = (r.randint(-100000, 100000) / 128 for _ in range(3))
    return p


def points_(r, n=None, fmt=None, eb=None):
    fmt = r.choice([6, 7, 8]) if fmt is None else fmt
    eb = r.choice([0, 0, 1, 3, 8]) if eb is None else eb
    ps = copc.Points(fmt, eb)
    for _ in range(r.randint(0, 7) if n is None else n):
        ps.AddPoint(point_(r, fmt, eb))
    return ps


def ebvlr_(r):
    return peek.eb_vlr([r.randint(1, 10) if r.random() < 0.9 else (0 | r.randint(1, 9) << 8) for _ in range(r.choice([0, 0, 1, 2, 5]))])


def header_(r):
    k = r.randrange(3)
    if k == 0:
        h = copc.LasHeader()
    elif k == 1:
        h = peek.header(r.choice([6, 7, 8]), r.choice([30, 36, 38, 41, 60]), integer(r, 0, 2 ** 32 - 1), integer(r, 0, 2 ** 64 - 1), integer(r, 0, 2 ** 32 - 1),
                        copc.Vector3(2 ** -r.randint(1, 12), 0.01, 2 ** -r.randint(1, 12)), vec_(r, False), integer(r, 0, 2 ** 64 - 1), integer(r, 0, 2 ** 32 - 1),
                        r.random() < 0.5)
    else:
        h = config_(r).las_header
    for name, kind in ATTRS["LasHeader"].items():
        if kind and r.random() < 0.5:
            try:
                setattr(h, name, KINDS[kind](r))
            except RuntimeError:
                pass
    return h


def info_(r):
    i = copc.CopcInfo()
    for name, kind in ATTRS["CopcInfo"].items():
        setattr(i, name, KINDS[kind](r))
    if r.random() < 0.8:
        i.spacing = r.choice([1.0, 0.5, 10.0, 3.75])
    return i


def extent_(r):
    return copc.CopcExtent(*ordered(r)[:r.randint(2, 4)])


def ordered(r):
    a, b = real(r), real(r)
    return [b, a, real(r), abs(real(r))] if a > b else [a, b, real(r), abs(real(r))]


def extents_(r):
    if r.random() < 0.4:
        return config_(r).copc_extents
    return copc.CopcExtents(r.choice([6, 7, 8]), r.choice([0, 0, 1, 4]))


def scale_(r):
    return copc.Vector3(r.choice([0.01, 0.001, 1.0, 0.125]), r.choice([0.01, 0.5]), r.choice([0.01, 0.25, 2.0]))


def config_(r):
    c = copc.CopcConfigWriter(r.choice([6, 7, 8]), scale_(r), vec_(r, False), text(r, 30), ebvlr_(r), r.random() < 0.5)
    for n in ("center_x", "halfsize", "spacing"):
        setattr(c.copc_info, n, abs(real(r, False)) + 1)
    for e in c.copc_extents.extents:
        if r.random() < 0.3:
            e.minimum, e.maximum, e.mean, e.var = ordered(r)
    return c


def lazconfig_(r):
    return copc.LazConfigWriter(r.choice([6, 7, 8]), scale_(r), vec_(r, False), text(r, 30), ebvlr_(r))


def vchar_(r):
    return copc.VectorChar([chr(r.randrange(256)) for _ in range(r.choice([0, 1, 30, 60, 300]))])


# ------------------------------------------------------------------ values of each kind
KINDS = {
    "i32": lambda r: integer(r, -2 ** 31, 2 ** 31 - 1), "u8": lambda r: integer(r, 0, 255), "u16": lambda r: integer(r, 0, 65535),
    "u32": lambda r: integer(r, 0, 2 ** 32 - 1), "u64": lambda r: integer(r, 0, 2 ** 64 - 1), "i16": lambda r: integer(r, -32768, 32767),
    "nibble": lambda r: integer(r, 0, 17), "two": lambda r: integer(r, 0, 4), "bool": lambda r: r.random() < 0.5, "f64": real, "f32": lambda r: r.uniform(-200, 200),
    "coord": lambda r: r.randint(-10000, 10000) / 8, "str16": lambda r: text(r, 17), "str32": lambda r: text(r, 34), "key": key_, "vec": vec_, "box": box_,
    "rgb": lambda r: [integer(r, 0, 65535) for _ in range(r.choice([3, 3, 3, 2, 4]))], "u8s": lambda r: [r.randrange(256) for _ in range(r.choice([0, 1, 3, 8]))],
    "returns": lambda r: [integer(r, 0, 2 ** 64 - 1) for _ in range(15)], "extent": extent_, "node": node_, "point": point_, "points": points_, "header": header_,
    "info": info_, "extents": extents_, "ebvlr": ebvlr_, "vchar": vchar_, "fmt": lambda r: r.choice([6, 7, 8, 6, 7, 8, 5, 9, -1, 0]), "depth": lambda r: r.randint(-1, 9),
    "dir": lambda r: r.randint(0, 7), "res": lambda r: r.choice([0, 0.0, 0.5, 1, 3.3, 100.0]),
}
RANGE = {"i32": (-2 ** 31, 2 ** 31 - 1), "u8": (0, 255), "u16": (0, 65535), "u64": (0, 2 ** 64 - 1), "i16": (-32768, 32767), "nibble": (0, 255), "two": (0, 255)}
MAKE = {"VoxelKey": key_, "Box": box_, "Node": node_, "Page": page_, "Vector3": vec_, "Point": point_, "Points": points_, "LasHeader": header_, "CopcInfo": info_,
        "CopcExtent": extent_, "CopcExtents": extents_, "CopcConfigWriter": config_, "LazConfigWriter": lazconfig_}


def loose(kind, v, r):
    """The same value, in another form that converts to it."""
    if kind == "key" and v.IsValid() and r.random() < 0.5:
        return (v.d, v.x, v.y, v.z)
    if kind == "box" and v.x_min <= v.x_max and v.y_min <= v.y_max and v.z_min <= v.z_max and r.random() < 0.5:
        return (v.x_min, v.y_min, v.z_min, v.x_max, v.y_max, v.z_max)
    if kind == "vec" and r.random() < 0.6:
        return r.choice([tuple, list])((v.x, v.y, v.z))
    if kind == "extent" and v.minimum <= v.maximum and v.var >= 0 and r.random() < 0.5:
        return (v.minimum, v.maximum, v.mean, v.var)
    if kind in ("u8", "u16", "i32", "i16", "u64") and r.random() < 0.1:
        return {"u8": np.uint8, "u16": np.uint16, "i32": np.int32, "i16": np.int16, "u64": np.uint64}[kind](v)
    if kind == "f64" and r.random() < 0.1:
        return np.float64(v)
    return v


def bad(kind, r):
    """A value of the wrong type or range for the kind."""
    if kind in RANGE:
        lo, hi = RANGE[kind]
        return r.choice([lo - 1, hi + 1, "1", 1.5, None, [1], 2 ** 70])
    return {"f64": r.choice(["1", None, [1.0], (1, 2)]), "coord": r.choice(["1", None, [1.0]]), "f32": r.choice(["x", None]), "bool": r.choice(["x", [1, 2]]), "str16": r.choice([1, None, 2.5]), "str32": r.choice([1, None]),
            "key": r.choice([1, "k", None, [0, 0, 0, 0], copc.Vector3()]), "vec": r.choice([1, "v", None, ("a", "b", "c"), copc.Box()]),
            "rgb": r.choice([1, "abc", [1, 2, 65536], [1, -1, 2], None]), "u8s": r.choice([1, [256], [-1], None, "ab"]),
            "returns": r.choice([[1] * 14, [1] * 16, [-1] * 15, 3, None, ["a"] * 15]), "extent": r.choice([1, "e", copc.Vector3()])}.get(kind, object())


# ------------------------------------------------------------------ attributes: name -> kind, or None when it cannot be set
R_ = None
ATTRS = {
    "VoxelKey": dict(d="i32", x="i32", y="i32", z="i32"),
    "Box": dict(x_min="f64", y_min="f64", z_min="f64", x_max="f64", y_max="f64", z_max="f64"),
    "Node": dict(point_count="i32", key="key", offset="u64", byte_size="i32", page_key="key"),
    "Page": dict(point_count="i32", key="key", offset="u64", byte_size="i32", loaded="bool"),
    "Vector3": dict(x="f64", y="f64", z="f64"),
    "Point": dict(x="f64", y="f64", z="f64", intensity="u16", returns_bit_field="u8", return_number="nibble", number_of_returns="nibble", flags_bit_field="u8", synthetic="bool",
                  key_point="bool", withheld="bool", overlap="bool", scanner_channel="two", scan_direction_flag="bool", edge_of_flight_line="bool", classification="u8",
                  scan_angle="i16", scan_angle_degrees="f32", user_data="u8", point_source_id="u16", rgb="rgb", red="u16", green="u16", blue="u16", gps_time="f64", nir="u16",
                  point_format_id=R_, point_record_length=R_, extra_bytes="u8s"),
    "LasHeader": dict(file_source_id="u16", global_encoding="u16", guid="str16", system_identifier="str32", generating_software="str32", creation_day="u16", creation_year="u16",
                      point_offset=R_, vlr_count=R_, point_format_id=R_, point_record_length=R_, scale=R_, offset=R_, max="vec", min="vec", evlr_offset=R_, evlr_count=R_,
                      point_count=R_, points_by_return="returns"),
    "CopcInfo": dict(center_x="f64", center_y="f64", center_z="f64", halfsize="f64", spacing="f64", root_hier_offset="u64", root_hier_size="u64"),
    "CopcExtent": dict(minimum="f64", maximum="f64", mean="f64", var="f64"),
    "CopcExtents": dict(point_format_id=R_, has_extended_stats=R_, extents=R_, **{n: "extent" for n in (
        "x y z intensity return_number number_of_returns scanner_channel scan_direction_flag edge_of_flight_line classification user_data scan_angle point_source_id gps_time "
        "red green blue nir").split()}),
    "CopcConfigWriter": dict(las_header=R_, copc_info=R_, copc_extents=R_, extra_bytes_vlr=R_, wkt=R_),
    "LazConfigWriter": dict(las_header=R_, extra_bytes_vlr=R_, wkt=R_),
    "Points": dict(point_format_id=R_, point_record_length=R_, eb_byte_size=R_),
}
COLUMNS = dict(x="f64", y="f64", z="f64", classification="u8", point_source_id="u16", red="u16", green="u16", blue="u16")
# class, method, kinds of the arguments, their names where they can be given by name
METHODS = {
    "VoxelKey": [("IsValid", [], ""), ("Bisect", ["dir"], None), ("GetChildren", [], ""), ("GetParent", [], ""), ("GetParentAtDepth", ["depth"], "depth"),
                 ("GetParents", ["bool"], "include_current"), ("ChildOf", ["key"], "parent_key"), ("Resolution", ["header", "info"], "las_header copc_header"),
                 ("Intersects", ["header", "box"], None), ("Contains", ["header", "box"], None), ("Contains.Vector3", ["header", "vec"], None), ("Within", ["header", "box"], None),
                 ("Crosses", ["header", "box"], None), ("__eq__", ["key"], None), ("__str__", [], ""), ("__repr__", [], "")],
    "Box": [("Intersects", ["box"], None), ("Contains", ["box"], None), ("Contains.Vector3", ["vec"], None), ("Within", ["box"], None), ("__str__", [], ""), ("__repr__", [], "")],
    "Node": [("IsValid", [], ""), ("IsPage", [], ""), ("__str__", [], ""), ("__repr__", [], "")],
    "Page": [("IsValid", [], ""), ("IsPage", [], ""), ("__str__", [], ""), ("__repr__", [], "")],
    "Vector3": [("__eq__", ["vec"], None), ("__str__", [], ""), ("__repr__", [], "")],
    "Point": [("HasRgb", [], ""), ("HasNir", [], ""), ("ToPointFormat", ["fmt"], "point_format_id"), ("EbByteSize", [], ""), ("__eq__", ["point"], None), ("__ne__", ["point"], None),
              ("Within", ["box"], "box"), ("__str__", [], ""), ("__repr__", [], "")],
    "LasHeader": [("EbByteSize", [], ""), ("Span", [], ""), ("Bounds", [], ""), ("CheckAndUpdateBounds", ["point"], None), ("SetGpsTimeBit", [], ""), ("ApplyScale", ["vec"], None),
                  ("ApplyInverseScale", ["vec"], None), ("ApplyScaleX", ["f64"], None), ("ApplyScaleY", ["f64"], None), ("ApplyScaleZ", ["f64"], None), ("RemoveScaleX", ["f64"], None),
                  ("RemoveScaleY", ["f64"], None), ("RemoveScaleZ", ["f64"], None), ("__str__", [], ""), ("__repr__", [], "")],
    "CopcInfo": [("__str__", [], ""), ("__repr__", [], "")],
    "CopcExtent": [("__eq__", ["extent"], None), ("__str__", [], ""), ("__repr__", [], "")],
    "CopcExtents": [("__str__", [], ""), ("__repr__", [], "")],
    "Points": [("AddPoint", ["point"], None), ("AddPoints", ["points"], None), ("CreatePoint", [], ""), ("ToPointFormat", ["fmt"], "point_format_id"), ("Within", ["box"], "box"),
               ("GetWithin", ["box"], "box"), ("Pack", ["header"], None), ("Pack", ["scale", "vec0"], None), ("__str__", [], ""), ("__repr__", [], "")],
}
KINDS["scale"] = scale_
KINDS["vec0"] = lambda r: vec_(r, False)
READERS = {
    "FileReader": "Close path FindNode copc_config GetPointData GetPoints GetPointDataCompressed GetAllChildrenOfPage GetAllNodes GetPageList GetAllPoints GetNodesWithinBox "
                  "GetNodesIntersectBox GetPointsWithinBox GetDepthAtResolution GetMaxDepth GetNodesAtResolution GetNodesWithinResolution ValidateSpatialBounds",
    "FileWriter": "copc_config path FindNode Close AddNode AddNodeCompressed ChangeNodePage", "LazReader": "laz_config path GetPoints",
    "LazWriter": "laz_config point_count chunk_count path Close WritePoints WritePointsCompressed", "EbVlr": "items", "EbField": "", "VectorChar": "",
    "LazConfig": "las_header extra_bytes_vlr wkt", "CopcConfig": "copc_info copc_extents las_header extra_bytes_vlr wkt",
}


def presence():
    for c, names in [(c, list(a) + [m[0].split(".")[0] for m in METHODS.get(c, [])]) for c, a in ATTRS.items()] + [(c, n.split()) for c, n in READERS.items()]:
        expect(hasattr(copc, c), "missing", c)
        for n in names:
            expect(hasattr(getattr(copc, c), n), "missing", c + "." + n)
    for f in ("CompressBytes", "DecompressBytes"):
        expect(hasattr(copc, f), "missing", f)


def peek_name(cls, m):
    return cls + "." + ("__str__" if m == "__repr__" else m)


# ------------------------------------------------------------------ one attribute access or call, on the object and on a copy of it
def argument(kind, r, o):
    v = KINDS[kind](r)
    if kind in ("point", "key", "vec", "extent", "box") and r.random() < 0.3:
        try:
            w = peek.clone(o)
            if type(w) is type(v):
                return w
        except TypeError:
            pass
    if kind == "key" and isinstance(o, copc.VoxelKey) and o.IsValid() and r.random() < 0.5:
        return o.GetParentAtDepth(r.randint(0, o.d))
    if kind == "point" and isinstance(o, copc.Points) and r.random() < 0.8:
        return point_(r, o.point_format_id, o.eb_byte_size)
    if kind == "points" and isinstance(o, copc.Points) and r.random() < 0.8:
        return points_(r, None, o.point_format_id, o.eb_byte_size)
    return v


def pristine(o, before, what):
    expect(peek.state(o) == before, "changed-by-failure", lambda: "%s: from %s to %s" % (what, before[:500], peek.state(o)[:500]))


def step(cls, o, r):
    """Returns what was done."""
    o2 = peek.clone(o)
    before = peek.state(o)
    expect(before == peek.state(o2), "clone", cls)
    ms, at = METHODS.get(cls, []), ATTRS[cls]
    k = r.random()
    if k < 0.25 and ms:
        m, kinds, names = r.choice(ms)
        args = [argument(x, r, o) for x in kinds]
        if m.startswith("GetParents") and o.d > 3000:
            return "nothing"
        if m.startswith("ToPointFormat") and o.point_format_id < WAS[0]:
            return "nothing"  # whether colours come back with the format is nowhere promised
        lax = [loose(x, a, r) for x, a in zip(kinds, args)]
        states = [canon(a) for a in args]
        call = getattr(o, m.split(".")[0])
        if names and kinds and r.random() < 0.5:
            by_name = dict(zip(names.split(), lax))
            a = attempt(lambda: call(**by_name))
        else:
            a = attempt(lambda: call(*lax))
        fn = getattr(peek, peek_name(cls, m))
        b = attempt(lambda: fn(o2, *args))
        same(a, b, "call:%s.%s" % (cls, m), "%s%s" % (m, [str(x)[:80] for x in lax]))
        same(peek.state(o), peek.state(o2), "effect:%s.%s" % (cls, m), "%s%s" % (m, [str(x)[:80] for x in lax]))
        expect([canon(x) for x in args] == states, "argument-changed:%s.%s" % (cls, m), m)
        if a[0] == "raises":
            H.count("errors-compared")
        H.count("calls")
        H.note("method", cls + "." + m)
        return m
    n = r.choice(list(at))
    kind = at[n]
    if kind is None:
        a = attempt(lambda: getattr(o, n))
        same(a, attempt(lambda: getattr(peek, cls + "." + n)(o2)), "get:%s.%s" % (cls, n), n)
        value = r.choice([0, None, 1.0, getattr(o, n)])
        try:
            setattr(o, n, value)
        except AttributeError:
            pass
        except TypeError:
            pass
        else:
            raise Violation("settable:%s.%s" % (cls, n), "a value was assigned to it")
        pristine(o, before, "setting " + n)
        H.count("gets")
        H.note("attribute", cls + "." + n)
        return n
    if k < 0.4:
        v = bad(kind, r)
        try:
            setattr(o, n, v)
        except TypeError:
            pass
        except (RuntimeError, ValueError) as e:  # converted, then refused
            if kind not in ("rgb", "u8s", "returns", "nibble", "two", "key", "vec", "extent"):
                raise Violation("bad-value:%s.%s" % (cls, n), "%r: %s %s" % (v, type(e).__name__, e))
        else:
            if not (kind == "bool" or (kind == "u8s" and v == []) or isinstance(v, np.generic)):
                raise Violation("bad-value-accepted:%s.%s" % (cls, n), "%r gave %s" % (v, peek.state(o)))
            return "bad " + n
        pristine(o, before, "setting %s to %r" % (n, v))
        H.count("bad-values")
        return "bad " + n
    v = KINDS[kind](r)
    lax = loose(kind, v, r)
    a = attempt(lambda: setattr(o, n, lax))
    b = attempt(lambda: getattr(peek, cls + "." + n + "=")(o2, v))
    same(a, b, "set:%s.%s" % (cls, n), "%s = %s" % (n, str(lax)[:80]))
    same(peek.state(o), peek.state(o2), "effect-set:%s.%s" % (cls, n), "%s = %s" % (n, str(lax)[:80]))
    if a[0] == "raises":
        pristine(o, before, "setting %s" % n)
        H.count("errors-compared")
    H.count("sets")
    for m in (n, r.choice(list(at))):
        if hasattr(peek, cls + "." + m):
            same(attempt(lambda: getattr(o, m)), attempt(lambda: getattr(peek, cls + "." + m)(o2)), "get:%s.%s" % (cls, m), m)
            H.count("gets")
    H.note("attribute", cls + "." + n)
    return n


WAS = [0]


def case_objects(r):
    cls = r.choice([c for c in ATTRS if c not in ("Points", "CopcConfigWriter", "LazConfigWriter")])
    o = MAKE[cls](r)
    WAS[0], done = 0, []
    for _ in range(r.randint(5, 30)):
        if cls == "Point":
            WAS[0] = max(WAS[0], o.point_format_id)
        done.append(step(cls, o, r))
    H.sig(hash((cls, peek.state(o))))
    H.sample("%s after %s: %s" % (cls, ", ".join(done[:8]), str(peek.state(o))[:300]))


# ------------------------------------------------------------------ Points against a list of points
def addresses(ps):
    return [peek.address(p) for p in ps]


def column_value(r, kind, n):
    vs = [KINDS[kind](r) for _ in range(n)]
    form = r.randrange(4)
    if form == 0:
        return vs, vs
    if form == 1:
        return vs, tuple(vs)
    if form == 2:
        return vs, np.array(vs, dtype={"f64": np.float64, "u8": np.uint8, "u16": np.uint16}[kind])
    if kind == "f64":
        return vs, np.array([vs, vs]).T[:, 0]  # strided
    return vs, np.array(vs, dtype=np.int64)


def case_points(r):
    fmt, eb = r.choice([6, 7, 8]), r.choice([0, 0, 1, 3, 8])
    ps = points_(r, r.randint(0, 12), fmt, eb)
    mirror = list(ps)
    what = []
    WAS[0] = fmt
    for _ in range(r.randint(5, 25)):
        op = r.randrange(15)
        n = len(mirror)
        what.append(str(op))
        before = (peek.addresses(ps), peek.state(ps))
        if op == 0:
            i = r.randint(-n - 2, n + 1)
            try:
                p = ps[i]
                expect(-n <= i < n, "index", "ps[%d] of %d gave %s" % (i, n, p))
                expect(peek.address(p) == peek.address(mirror[i]), "index", "ps[%d] of %d is another point" % (i, n))
            except IndexError:
                expect(not -n <= i < n, "index", "ps[%d] of %d raised IndexError" % (i, n))
        elif op == 1:
            i, p = r.randint(-n - 2, n + 1), point_(r, fmt, eb)
            try:
                ps[i] = p
                expect(-n <= i < n, "assign", "ps[%d] of %d" % (i, n))
                mirror[i] = p
            except IndexError:
                expect(not -n <= i < n, "assign", "ps[%d] of %d raised IndexError" % (i, n))
        elif op in (2, 3):
            s = slice(*[r.choice([None, r.randint(-n - 3, n + 3)]) for _ in range(2)], r.choice([None, 1, 1, 2, 3, -1, -2]))
            want = mirror[s]
            if op == 2:
                got = ps[s]
                expect(type(got) is copc.Points and peek.addresses(got) == addresses(want), "slice", "%s of %d: %d points, %d expected" % (s, n, len(got), len(want)))
                expect((got.point_format_id, got.point_record_length) == (ps.point_format_id, ps.point_record_length), "slice-format", str(s))
                if r.random() < 0.5:
                    x = [real(r) for _ in want]
                    got.x = x
                    expect([canon(v) for v in ps.x] == [canon(p.x) for p in mirror] and canon(got.x) == canon(x), "slice-set", str(s))
            else:
                size = len(want) if r.random() < 0.7 else r.randint(0, n + 2)
                new = points_(r, size, fmt, eb)
                try:
                    ps[s] = new
                    expect(size == len(want), "slice-assign", "%d points to %s of %d were accepted" % (size, s, n))
                    mirror[s] = list(new)
                except RuntimeError as e:
                    expect(size != len(want), "slice-assign", "%d points to %s of %d: %s" % (size, s, n, e))
                    expect((peek.addresses(ps), peek.state(ps)) == before, "changed-by-failure", "slice assignment")
        elif op == 4:
            p = point_(r, fmt, eb) if r.random() < 0.7 else point_(r)
            fits = (p.point_format_id, p.point_record_length) == (ps.point_format_id, ps.point_record_length)
            try:
                ps.AddPoint(p)
                expect(fits, "add", "a point of another kind was accepted")
                mirror.append(p)
            except RuntimeError:
                expect(not fits, "add", "a fitting point was refused")
        elif op == 5:
            other = points_(r, None, fmt, eb) if r.random() < 0.7 else points_(r)
            if r.random() < 0.5:
                fits = (other.point_format_id, other.point_record_length) == (ps.point_format_id, ps.point_record_length)
            else:
                other = list(other)
                fits = all((p.point_format_id, p.point_record_length) == (ps.point_format_id, ps.point_record_length) for p in other)
            try:
                ps.AddPoints(other)
                expect(fits, "add-points", "points of another kind were accepted")
                mirror += list(other)
            except RuntimeError:
                expect(not fits, "add-points", "fitting points were refused")
        elif op == 6:
            for i, p in enumerate(mirror):
                expect(p in ps, "contains", "point %d" % i)
            q = peek.clone(mirror[0]) if mirror else point_(r, fmt, eb)
            expect(q not in ps, "contains", "a point that only equals one")
        elif op == 7:
            it = iter(ps)
            for i, p in enumerate(mirror):
                expect(peek.address(next(it)) == peek.address(p), "iteration", "point %d" % i)
            expect(next(it, None) is None, "iteration", "one more than %d" % n)
        elif op in (8, 9, 10):
            name = r.choice(list(COLUMNS))
            has = name not in ("red", "green", "blue") or ps.point_format_id in (7, 8) or n == 0
            size = n if r.random() < 0.8 else n + r.choice([-1, 1, 3])
            vs, form = column_value(r, COLUMNS[name], max(0, size))
            fits = len(vs) == n and has
            a = attempt(lambda: setattr(ps, name, form))
            expect((a[0] == "is") == fits, "column-set:" + name, "%d values for %d points of format %d: %s" % (len(vs), n, ps.point_format_id, a))
            if fits:
                expect([canon(getattr(p, name)) for p in mirror] == [canon(v) for v in vs], "column-set:" + name, "%s -> %s" % (vs, [getattr(p, name) for p in mirror]))
                expect(canon(getattr(ps, name)) == canon(vs), "column-get:" + name, "%s -> %s" % (vs, getattr(ps, name)))
                after = peek.clone(ps)
                for q, v in zip(after, [getattr(x, name) for x in mirror]):
                    setattr(q, name, v)
                expect(peek.state(after) == peek.state(ps), "column-set:" + name, "set something else")
                H.count("columns")
                if fits and n:  # nothing but this attribute changed
                    old = before[1].split("point ")[1:]
                    new = peek.state(ps).split("point ")[1:]
                    diff = [sum(x != y for x, y in zip(a_.split(), b_.split())) for a_, b_ in zip(old, new)]
                    expect(max(diff) <= 1, "column-set:" + name, "changed %d attributes" % max(diff))
            else:
                expect((peek.addresses(ps), peek.state(ps)) == before, "changed-by-failure", "column " + name)
        elif op == 11:
            q = r.choice(["x", "z", "red", "classification"])
            v = r.choice(["abc", 5, None, [None] * n if n else 5, ["a"] * n if n else 5, [2 ** 70] * n if n and q != "x" and q != "z" else 5])
            try:
                setattr(ps, q, v)
                raise Violation("column-bad-value", "%s = %r" % (q, v))
            except TypeError:
                pass
            expect((peek.addresses(ps), peek.state(ps)) == before, "changed-by-failure", "column " + q)
        elif op == 12:
            b = box_(r)
            inside = [p for p in mirror if p.Within(b)]
            got = ps.GetWithin(b)
            expect(ps.Within(b) == (len(inside) == n) and addresses(got) == addresses(inside), "within", str(b))
        elif op == 13:
            h = copc.CopcConfigWriter(fmt, scale_(r), (0, 0, 0)).las_header
            s, f = h.scale, h.offset
            a = attempt(lambda: ps.Pack(h) if r.random() < 0.5 else ps.Pack(s, f))
            same(a, attempt(lambda: getattr(peek, "Points.Pack")(ps, s, f)), "pack", "%d points" % n)
            if a[0] == "is" and r.random() < 0.7:
                data = ps.Pack(s, f)
                back = copc.Points.Unpack(data, ps.point_format_id, ps.eb_byte_size, s, f)
                direct = getattr(peek, "Points.Unpack")(data, ps.point_format_id, ps.eb_byte_size, s, f)
                same(canon(back), canon(direct), "unpack", "%d points" % n)
                expect(len(back) == n, "unpack", "%d points" % n)
                H.count("packed-points", n)
        elif r.random() < 0.3:  # no point at all
            calls = [lambda: ps.AddPoint(None), lambda: ps.AddPoints(list(ps) + [None]), lambda: copc.Points([None]), lambda: copc.Points([point_(r, 6, 0), None])]
            if n:
                calls.append(lambda: ps.__setitem__(r.randrange(n), None))
            try:
                r.choice(calls)()
                raise Violation("no-point-accepted", before[1][:300])
            except (RuntimeError, TypeError):
                pass
            expect((peek.addresses(ps), peek.state(ps)) == before, "changed-by-failure", "None as a point")
            H.count("foreign-points")
        else:  # something that belongs elsewhere
            bad_ = point_(r, *r.choice([(f, e) for f in (6, 7, 8) for e in (0, 1, 3) if (f, e) != (fmt, eb)]))
            if n and (bad_.point_format_id, bad_.point_record_length) != (ps.point_format_id, ps.point_record_length):
                i = r.randrange(n)
                try:
                    if r.random() < 0.5:
                        ps[i] = bad_
                    else:
                        ps[i:i + 1] = copc.Points([bad_])
                    raise Violation("foreign-point", "a point of format %d and %d bytes became part of points of format %d and %d bytes" % (
                        bad_.point_format_id, bad_.point_record_length, ps.point_format_id, ps.point_record_length))
                except RuntimeError:
                    pass
                expect((peek.addresses(ps), peek.state(ps)) == before, "changed-by-failure", "foreign point")
                H.count("foreign-points")
        expect(len(ps) == len(mirror) and peek.addresses(ps) == addresses(mirror), "points-list", "after %s: %d points, %d expected" % (what[-1], len(ps), len(mirror)))
        WAS[0] = max(WAS[0], ps.point_format_id)
        H.count("container-operations")
        H.note("container-operation", op)
    H.sig(hash(peek.state(ps)))
    for _ in range(3):
        WAS[0] = max(WAS[0], ps.point_format_id)
        step("Points", ps, r)


# ------------------------------------------------------------------ pickles
def raw_header(r):
    h = header_(r)
    if r.random() < 0.4:
        peek.raw_texts(h, *[bytes(r.randrange(256) for _ in range(r.choice([n, n // 2]))) for n in (16, 32, 32)])
    return h


def case_pickle(r):
    makers = [("VoxelKey", key_), ("Vector3", vec_), ("Node", node_), ("LasHeader", raw_header), ("VectorChar", vchar_)]
    vs = []
    for _ in range(r.randint(1, 5)):
        n, f = r.choice(makers)
        vs.append(f(r))
        H.note("pickled", n)
    how = r.randrange(4)
    before = [peek.state(v) for v in vs]
    if how == 0:
        back = [copy.copy(v) for v in vs]
    elif how == 1:
        back = copy.deepcopy(vs)
    else:
        proto = r.randint(2, pickle.HIGHEST_PROTOCOL)
        data = pickle.dumps({"a": vs, "b": tuple(vs)}, proto)
        d = pickle.loads(data)
        back = d["a"]
        expect([id(x) for x in d["b"]] == [id(x) for x in back], "pickle-identity", "shared objects came apart")
        again = pickle.loads(pickle.dumps(back, proto))
        expect([peek.state(v) for v in again] == before, "pickle-twice", str(before)[:500])
        H.note("protocol", proto)
    for v, w, b in zip(vs, back, before):
        expect(type(v) is type(w), "pickle-type", "%s became %s" % (type(v), type(w)))
        expect(peek.state(w) == b, "pickle:" + type(v).__name__, "%s became %s" % (b[:900], peek.state(w)[:900]))
        expect(peek.state(v) == b, "pickle-changes-source:" + type(v).__name__, b[:900])
        if isinstance(v, copc.VoxelKey):
            expect(v == w and hash(v) == hash(w), "pickle-key", str(v))
        if isinstance(v, copc.Node):
            w.key.d += 1
            w.offset ^= 1
        elif isinstance(v, copc.LasHeader):
            w.max = (1, 2, 3.25)
            w.file_source_id = (w.file_source_id + 1) & 65535
        elif isinstance(v, copc.VoxelKey):
            w.x = (w.x + 1) & 1023
        elif isinstance(v, copc.Vector3):
            w.y = 123.125
        elif len(w):
            w[0] = "q" if w[0] != "q" else "r"
        expect(peek.state(v) == b, "pickle-shares:" + type(v).__name__, b[:900])
        H.count("pickles")
    for cls, state in ((copc.VoxelKey, (1, 2, 3)), (copc.Node, (1,)), (copc.LasHeader, (1, 2)), (copc.Node, ("a", 1, 2, 3, key_(r)))):
        try:
            cls.__new__(cls).__setstate__(state)
            raise Violation("bad-state-accepted", "%s from %s" % (cls, state))
        except (RuntimeError, TypeError):
            pass
    H.sig(hash(str(before)))


# ------------------------------------------------------------------ constructors, operators, conversions
def case_construct(r):
    def both(name, py, cc, what):
        same(attempt(py), attempt(cc), "construct:" + name, what)
        H.count("constructions")
        H.note("construction", name)

    P = lambda n: getattr(peek, n)  # noqa: E731
    for _ in range(6):
        k = r.randrange(14)
        if k == 0:
            v = [KINDS["i32"](r) for _ in range(r.choice([4, 4, 4, 3, 5]))]
            both("VoxelKey(list)", lambda: copc.VoxelKey(r.choice([list, tuple])(v)), lambda: P("VoxelKey()")(v), v)
            if len(v) == 4:
                both("VoxelKey(d,x,y,z)", lambda: copc.VoxelKey(*v), lambda: P("VoxelKey()")(*v), v)
                both("VoxelKey(kw)", lambda: copc.VoxelKey(z=v[3], d=v[0], y=v[2], x=v[1]), lambda: P("VoxelKey()")(*v), v)
            both("VoxelKey()", lambda: copc.VoxelKey(), lambda: P("VoxelKey()")(), "")
            both("RootKey", lambda: copc.VoxelKey.RootKey(), lambda: P("VoxelKey.RootKey")(), "")
            both("InvalidKey", lambda: copc.VoxelKey.InvalidKey(), lambda: P("VoxelKey.InvalidKey")(), "")
        elif k == 1:
            v = [real(r, r.random() < 0.3) for _ in range(6)]
            if r.random() < 0.8:
                v[:3], v[3:] = [min(a, b) for a, b in zip(v[:3], v[3:])], [max(a, b) for a, b in zip(v[:3], v[3:])]
            both("Box(6)", lambda: copc.Box(*v), lambda: P("Box()")(*v), v)
            both("Box(kw)", lambda: copc.Box(z_max=v[5], x_min=v[0], y_max=v[4], y_min=v[1], z_min=v[2], x_max=v[3]), lambda: P("Box()")(*v), v)
            w = [v[0], v[1], v[3], v[4]]
            both("Box(4)", lambda: copc.Box(*w), lambda: P("Box()")(*w), w)
            both("Box(4kw)", lambda: copc.Box(y_max=w[3], x_max=w[2], y_min=w[1], x_min=w[0]), lambda: P("Box()")(*w), w)
            u = v[:r.choice([6, 6, 4, 5, 3])]
            both("Box(list)", lambda: copc.Box(r.choice([list, tuple])(u)), lambda: P("Box()")(u), u)
            a, b = copc.Vector3(*v[:3]), copc.Vector3(*v[3:])
            both("Box(min,max)", lambda: copc.Box(a, b) if r.random() < 0.5 else copc.Box(max=b, min=a), lambda: P("Box.Vectors()")(a, b), v)
            both("Box(min,max)", lambda: copc.Box(v[:3], tuple(v[3:])), lambda: P("Box.Vectors()")(a, b), v)
            both("MaxBox", copc.Box.MaxBox, P("Box.MaxBox"), "")
            both("EmptyBox", copc.Box.EmptyBox, P("Box.EmptyBox"), "")
            both("Box()", copc.Box, P("Box()"), "")
        elif k == 2:
            key, h = key_(r), header_(r)
            both("Box(key)", lambda: copc.Box(key, h) if r.random() < 0.5 else copc.Box(las_header=h, key=key), lambda: P("Box.Key()")(key, h), str(key))
        elif k == 3:
            v = [real(r) for _ in range(r.choice([3, 3, 3, 2, 4]))]
            both("Vector3(list)", lambda: copc.Vector3(r.choice([list, tuple])(v)), lambda: P("Vector3()")(v), v)
            if len(v) == 3:
                both("Vector3(x,y,z)", lambda: copc.Vector3(*v), lambda: P("Vector3()")(*v), v)
                both("Vector3(kw)", lambda: copc.Vector3(z=v[2], x=v[0], y=v[1]), lambda: P("Vector3()")(*v), v)
                both("Vector3(array)", lambda: copc.Vector3(np.array(v)), lambda: P("Vector3()")(v), v)
            both("Vector3()", copc.Vector3, P("Vector3()"), "")
            both("DefaultScale", copc.Vector3.DefaultScale, P("Vector3.DefaultScale"), "")
            both("DefaultOffset", copc.Vector3.DefaultOffset, P("Vector3.DefaultOffset"), "")
        elif k == 4:
            f, e = r.choice([6, 7, 8, 0, 3, 10]), r.choice([0, 1, 9, 600])
            both("Points(f,e)", lambda: copc.Points(f, e) if r.random() < 0.5 else copc.Points(eb_byte_size=e, point_format_id=f), lambda: P("Points()")(f, e), (f, e))
            both("Points(f)", lambda: copc.Points(f), lambda: P("Points()")(f), f)
            both("Points(bad)", lambda: copc.Points(11), lambda: P("Points()")(11), 11)
            h = header_(r)
            both("Points(header)", lambda: copc.Points(h), lambda: P("Points()")(h), canon(h))
            ps = [point_(r, 6, 0) for _ in range(r.randint(0, 4))] + ([point_(r)] if r.random() < 0.3 else [])
            both("Points(list)", lambda: copc.Points(ps), lambda: P("Points()")(ps), len(ps))
        elif k == 5:
            v = [real(r) for _ in range(r.choice([2, 3, 4, 4]))]
            both("CopcExtent(list)", lambda: copc.CopcExtent(v + [1.0] * r.choice([0, 0, 3])) if False else copc.CopcExtent(v), lambda: P("CopcExtent()")(v), v)
            both("CopcExtent", lambda: copc.CopcExtent(*v), lambda: P("CopcExtent()")(*v), v)
            kw = dict(zip(("minimum", "maximum", "mean", "var"), v))
            both("CopcExtent(kw)", lambda: copc.CopcExtent(**kw), lambda: P("CopcExtent()")(*v), v)
            both("CopcExtent()", copc.CopcExtent, P("CopcExtent()"), "")
            w = real(r)
            if len(v) >= 2 and v[0] <= v[1]:
                want = attempt(lambda: P("CopcExtent()")(v[0], v[1], 0.0, w))
                same(attempt(lambda: copc.CopcExtent(v[0], v[1], var=w)), want, "construct:CopcExtent(var)", v)
        elif k == 6:
            f, n = r.choice([6, 7, 8]), r.choice([0, 1, 5])
            both("CopcExtents", lambda: copc.CopcExtents(f, n) if r.random() < 0.5 else copc.CopcExtents(num_eb_items=n, point_format_id=f), lambda: P("CopcExtents()")(f, n), (f, n))
            both("CopcExtents(f)", lambda: copc.CopcExtents(f), lambda: P("CopcExtents()")(f), f)
        elif k in (7, 8):
            full = [r.choice([6, 7, 8, 8, 5]), scale_(r), vec_(r, False), text(r, 20), ebvlr_(r), r.random() < 0.5]
            names = "point_format_id scale offset wkt extra_bytes_vlr has_extended_stats".split()
            dflt = [None, copc.Vector3.DefaultScale(), copc.Vector3.DefaultOffset(), "", peek.eb_vlr([]), False]
            kind, n = r.choice([("CopcConfigWriter", 6), ("LazConfigWriter", 5)])
            form = r.randrange(3)
            if form == 0:
                m = r.randint(1, n)
                want = full[:m] + dflt[m:n]
                both(kind, lambda: getattr(copc, kind)(*full[:m]), lambda: P(kind + "()")(*want), m)
            else:
                given = [0] + [i for i in range(1, n) if r.random() < 0.5]
                want = [full[i] if i in given else dflt[i] for i in range(n)]
                kw = {names[i]: full[i] for i in given}
                if "offset" in kw and r.random() < 0.5:
                    kw["offset"] = [full[2].x, full[2].y, full[2].z]
                both(kind + "(kw)", lambda: getattr(copc, kind)(**kw), lambda: P(kind + "()")(*want), sorted(kw))
        elif k == 9:
            c, l = config_(r), lazconfig_(r)
            h = c.las_header
            h.file_source_id = 77
            expect(peek.state(c).split()[2] == "77", "config-shared-header", "las_header of a writer's configuration is not its header")
            c.copc_info.spacing = 12.5
            e = c.copc_extents
            e.x = (1.5, 2.5, 3.5, 4.5)
            expect(e.x.var == 4.5 and c.copc_extents.x.minimum == 1.5 and c.copc_info.spacing == 12.5, "config-shared", "changes through a property are lost")
            same(canon(copc.LasHeader()), canon(P("LasHeader()")()), "construct:LasHeader", "")
            same(canon(copc.CopcInfo()), canon(P("CopcInfo()")()), "construct:CopcInfo", "")
            same(canon(copc.Node()), canon(P("Node()")()), "construct:Node", "")
            H.count("constructions", 3)
            for kind, o, names in (("CopcConfigWriter", c, "las_header copc_info copc_extents extra_bytes_vlr wkt"), ("LazConfigWriter", l, "las_header extra_bytes_vlr wkt")):
                for n in names.split():
                    same(attempt(lambda: getattr(o, n)), attempt(lambda: P(kind + "." + n)(o)), "get:%s.%s" % (kind, n), n)
                    H.note("attribute", kind + "." + n)
        elif k == 10:
            operators(r)
        elif k == 11:
            codec(r)
        elif k == 12:
            v = ebvlr_(r)
            n = len(v.items)
            expect(n == len(canon(v).split("field")) - 1, "EbVlr.items", str(n))
            v.items = v.items + [copc.EbField()]
            expect(len(v.items) == n + 1 and canon(v).count("field") == n + 1, "EbVlr.items", str(n))
            m = r.randint(0, 5)
            expect(len(copc.EbVlr(m).items) == m, "EbVlr(n)", str(m))
        else:
            rejects(r)
    H.sig(r.random())


def operators(r):
    a, b = vec_(r), vec_(r)
    d = real(r)
    import operator as op
    for name, f in (("+", op.add), ("-", op.sub), ("*", op.mul), ("/", op.truediv), ("//", op.floordiv)):
        for other in (b, d, r.randint(-5, 5), (b.x, b.y, b.z), [b.x, b.y, b.z]):
            vs = (other.x, other.y, other.z) if isinstance(other, copc.Vector3) else tuple(other) if isinstance(other, (list, tuple)) else (other,) * 3
            before = canon(a)
            got = f(a, other)
            with np.errstate(all="ignore"):
                want = [np.float64(x) for x in (a.x, a.y, a.z)]
                ws = [np.float64(v) for v in vs]
                if name == "//":
                    want = [np.floor(x / y) for x, y in zip(want, ws)]
                else:
                    want = [f(x, y) for x, y in zip(want, ws)]
            same([canon(float(v)) for v in (got.x, got.y, got.z)], [canon(float(v)) for v in want], "operator" + name, "%s %s %s" % (a, name, other))
            expect(canon(a) == before, "operator-changes", name)
            H.count("operators")
    for bad_ in ("x", None, (1, 2), copc.Box(), object()):
        for f in (op.add, op.mul, op.floordiv):
            try:
                got = f(a, bad_)
                raise Violation("operator-accepts", "%s of Vector3 and %r is %s" % (f, bad_, got))
            except (TypeError, RuntimeError):
                pass
    expect((a == b) is getattr(peek, "Vector3.__eq__")(a, b), "operator==", "%s %s" % (a, b))
    expect((a != b) is not (a == b), "operator!=", "%s %s" % (a, b))
    k, l = key_(r), key_(r)
    expect((k == l) is getattr(peek, "VoxelKey.__eq__")(k, l) and (k != l) is not (k == l), "key==", "%s %s" % (k, l))
    l = peek.clone(k)
    expect(k == l and hash(k) == hash(l) and {k: 1}.get(l) == 1 and (k.d, k.x, k.y, k.z) == (l.d, l.x, l.y, l.z), "key-hash", str(k))


def codec(r):
    fmt, eb = r.choice([6, 7, 8]), r.choice([0, 1, 8])
    cfg = copc.CopcConfigWriter(fmt, (0.125, 0.125, 0.125), (0, 0, 0), "", peek.eb_vlr([1] * eb))
    h = cfg.las_header
    ps = points_(r, r.randint(0, 9), fmt, eb)
    data = ps.Pack(h)
    if r.random() < 0.2:
        data = copc.VectorChar(list(data)[:-1])
    state = canon(data)
    a = attempt(lambda: copc.CompressBytes(data, h))
    same(a, attempt(lambda: peek.CompressBytes(data, h)), "CompressBytes", "%d points" % len(ps))
    b = attempt(lambda: copc.CompressBytes(data, fmt, eb) if r.random() < 0.5 else copc.CompressBytes(eb_byte_size=eb, point_format_id=fmt, **{"in": data}))
    same(b, attempt(lambda: peek.CompressBytes(data, fmt, eb)), "CompressBytes(format)", "%d points" % len(ps))
    expect(canon(data) == state, "argument-changed:CompressBytes", "")
    if a[0] == "is" and len(ps):
        z = copc.CompressBytes(data, h)
        n = r.choice([len(ps), r.randint(0, len(ps) + 1)])
        same(attempt(lambda: copc.DecompressBytes(z, h, n)), attempt(lambda: peek.DecompressBytes(z, h, n)), "DecompressBytes", "%d of %d" % (n, len(ps)))
        same(attempt(lambda: copc.DecompressBytes(point_count=n, header=h, compressed_data=z)), attempt(lambda: peek.DecompressBytes(z, h, n)), "DecompressBytes(kw)", str(n))
        same(attempt(lambda: copc.DecompressBytes(z, fmt, eb, n)), attempt(lambda: peek.DecompressBytes(z, fmt, eb, n)), "DecompressBytes(format)", str(n))
        back = copc.DecompressBytes(z, h, len(ps))
        same(canon(back), canon(data), "codec", "%d points" % len(ps))
        expect(canon(copc.Points.Unpack(back, h)) == canon(getattr(peek, "Points.Unpack")(data, h)), "unpack", "%d points" % len(ps))
    H.count("codec-calls")


def rejects(r):
    """Calls that match no overload raise TypeError and do nothing."""
    ps, p, k, h = points_(r, 3, 6, 0), point_(r, 6, 0), key_(r), header_(r)
    before = [canon(x) for x in (ps, p, k, h)]
    calls = [lambda: k.Bisect("a"), lambda: k.GetParents(), lambda: k.ChildOf((1, 2)), lambda: copc.VoxelKey("abcd"), lambda: copc.VoxelKey(1, 2, 3), lambda: copc.VoxelKey(1.5, 0, 0, 0),
             lambda: copc.Box(1, 2, 3), lambda: copc.Box("a"), lambda: copc.Vector3(1, 2), lambda: copc.Vector3("a", 1, 2), lambda: copc.Points(6, -1), lambda: copc.Points(6, 70000),
             lambda: copc.Points("6"), lambda: ps.AddPoint(5), lambda: ps.AddPoints(5), lambda: ps.AddPoints([p, 5]), lambda: ps.Within(3), lambda: ps.Pack(), lambda: ps.Pack(h, h),
             lambda: ps["a"], lambda: ps[1.5], lambda: ps.__setitem__(0, 5), lambda: ps.__setitem__(slice(0, 1), [p]), lambda: p.ToPointFormat("7"), lambda: p.ToPointFormat(1000),
             lambda: p.Within(), lambda: p.Within(box_(r), 1), lambda: h.ApplyScale("a"), lambda: h.ApplyScaleX("a"), lambda: h.CheckAndUpdateBounds(k), lambda: h.RemoveScaleX([1]),
             lambda: copc.CompressBytes(b"abc", h), lambda: copc.CompressBytes(), lambda: copc.DecompressBytes(copc.VectorChar(), h), lambda: copc.CopcConfigWriter(),
             lambda: copc.CopcConfigWriter("6"), lambda: copc.CopcConfigWriter(6, nonsense=1), lambda: copc.CopcConfigWriter(6, scale=5), lambda: copc.LazConfigWriter(6, offset="abc"),
             lambda: copc.CopcExtent("a"), lambda: copc.CopcExtent(1), lambda: copc.CopcExtents(), lambda: copc.FileReader(), lambda: copc.FileReader(5), lambda: copc.FileWriter("x"),
             lambda: copc.EbVlr("x"), lambda: copc.Node(1), lambda: copc.LasHeader(1), lambda: copc.Page()]
    for i in r.sample(range(len(calls)), 8):
        try:
            got = calls[i]()
            raise Violation("call-accepted", "call %d gave %s" % (i, got))
        except TypeError:
            H.count("rejected-calls")
    for o, n in ((p, "nonsense"), (k, "w"), (h, "maximum"), (ps, "intensity"), (copc.Vector3(), "w")):
        try:
            setattr(o, n, 1)
            raise Violation("attribute-created", "%s.%s" % (type(o), n))
        except AttributeError:
            pass
    expect([canon(x) for x in (ps, p, k, h)] == before, "changed-by-failure", "a call with the wrong arguments")


# ------------------------------------------------------------------ files
def fields(ps):
    return peek.state(ps)


def node_points(r, header, n):
    ps = copc.Points(header)
    for _ in range(n):
        q = point_(r, header.point_format_id, ps.eb_byte_size)
        ps.AddPoint(q)
    return ps


def parsed(d):
    """A COPC file without the order of sibling pages, which follows the addresses of the writer's objects."""
    def tree(at, size):
        t = {}
        for i in range(at, at + size, 32):
            k, offset, size_, n = d[i:i + 16], *struct.unpack("<Qii", d[i + 16:i + 32])
            t[k] = ("page", tree(offset, size_)) if n == -1 else (offset, size_, n)
        return t
    root, size = struct.unpack("<QQ", d[469:485])
    at, n = struct.unpack("<QI", d[235:247])
    out, pages = [d[:469], size, d[485:at], tree(root, size)], []
    for _ in range(n):
        user, rec, length = struct.unpack("<16sHQ", d[at + 2:at + 28])
        if user.rstrip(b"\0") == b"copc" and rec == 1000:
            pages.append(d[at:at + 60])
        else:
            out.append(d[at:at + 60 + length])
        at += 60 + length
    return out + [d[at:], sorted(pages)]


def write_history(r, a, tag):
    pa, pb = os.path.join(a.tmp, tag + "-py.laz"), os.path.join(a.tmp, tag + "-cc.laz")
    over = {}
    base = copc.CopcConfigWriter(r.choice([6, 7, 8]), (0.125, 0.125, 0.125), (0, 0, 0), text(r, 20), ebvlr_(r), r.random() < 0.3)
    base.las_header.min, base.las_header.max = (0, 0, 0), (1000, 900, 800)
    base.copc_info.spacing = r.choice([10.0, 3.0])
    base.las_header.generating_software = text(r, 16)
    base.copc_info.halfsize, base.copc_info.center_x, base.copc_info.center_y, base.copc_info.center_z = 500, 500, 500, 500
    if r.random() < 0.6:
        for n, v in (("point_format_id", r.choice([6, 7, 8])), ("scale", scale_(r)), ("offset", vec_(r, False)), ("wkt", text(r, 25)), ("extra_bytes_vlr", ebvlr_(r)),
                     ("has_extended_stats", r.random() < 0.5)):
            if r.random() < 0.4:
                over[n] = v
    order = ["point_format_id", "scale", "offset", "wkt", "extra_bytes_vlr", "has_extended_stats"]
    full = [over.get(n) for n in order]
    if over and r.random() < 0.4:
        w1 = copc.FileWriter(pa, base, *full)
    else:
        w1 = copc.FileWriter(pa, config=base, **over) if r.random() < 0.5 else copc.FileWriter(file_path=pa, config=base, **over)
    w2 = getattr(peek, "FileWriter()")(pb, base, *full)
    same(canon(w1.copc_config), canon(getattr(peek, "FileWriter.copc_config")(w2)), "FileWriter", str(over))
    expect(w1.path == pa and getattr(peek, "FileWriter.path")(w2) == pb, "FileWriter.path", w1.path)
    keys = [copc.VoxelKey.RootKey()]
    for _ in range(r.randint(0, 8)):
        k = r.choice(keys).Bisect(r.randrange(8))
        if k not in keys and k.d < 5:
            keys.append(k)
    pages = [copc.VoxelKey.RootKey()]
    added = []
    for k in keys:
        n = r.randint(1, 6)
        page = r.choice([p for p in pages if k.ChildOf(p) or p == k or p.d == 0])
        if r.random() < 0.3:
            page = k
        if r.random() < 0.05:
            page = key_(r)
        h = w1.copc_config.las_header
        ps = node_points(r, h, n if r.random() < 0.95 else 0) if r.random() < 0.93 else points_(r, n)
        form = r.randrange(3)
        default = r.random() < 0.3
        lax = loose("key", k, r)
        pargs = {} if default else {"page_key": loose("key", page, r)}
        ppeek = copc.VoxelKey.RootKey() if default else page
        if form == 0:
            call = (lambda: w1.AddNode(lax, ps, **pargs)) if r.random() < 0.5 else (lambda: w1.AddNode(points=ps, key=lax, **pargs))
            x, y = attempt(call), attempt(lambda: getattr(peek, "FileWriter.AddNode")(w2, k, ps, ppeek))
        elif form == 1:
            try:
                data = ps.Pack(h)
            except RuntimeError:
                continue
            call = (lambda: w1.AddNode(lax, data, **pargs)) if r.random() < 0.5 else (lambda: w1.AddNode(uncompressed_data=data, key=lax, **pargs))
            x, y = attempt(call), attempt(lambda: getattr(peek, "FileWriter.AddNode")(w2, k, data, ppeek))
        else:
            try:
                data = copc.CompressBytes(ps.Pack(h), h)
            except RuntimeError:
                continue
            m = len(ps) if r.random() < 0.9 else 0
            call = (lambda: w1.AddNodeCompressed(lax, data, m, **pargs)) if r.random() < 0.5 else (lambda: w1.AddNodeCompressed(point_count=m, compressed_data=data, key=lax, **pargs))
            x, y = attempt(call), attempt(lambda: getattr(peek, "FileWriter.AddNodeCompressed")(w2, k, data, m, ppeek))
        same(x, y, "add-node", "%s, form %d, page %s" % (k, form, ppeek))
        H.count("nodes-added")
        if x[0] == "is":
            added.append(k)
            if ppeek not in pages:
                pages.append(ppeek)
        if r.random() < 0.3:
            q = r.choice(keys)
            same(attempt(lambda: w1.FindNode(loose("key", q, r))), attempt(lambda: getattr(peek, "FileWriter.FindNode")(w2, q)), "FileWriter.FindNode", str(q))
        if r.random() < 0.2 and added:
            q, g = r.choice(added), r.choice(keys + pages)
            x = attempt((lambda: w1.ChangeNodePage(q, g)) if r.random() < 0.5 else (lambda: w1.ChangeNodePage(new_page_key=loose("key", g, r), node_key=loose("key", q, r))))
            same(x, attempt(lambda: getattr(peek, "FileWriter.ChangeNodePage")(w2, q, g)), "ChangeNodePage", "%s to %s" % (q, g))
    for c in (w1.copc_config, getattr(peek, "FileWriter.copc_config")(w2)):
        if r.random() < 2:
            c.las_header.file_source_id = 5
            c.copc_extents.x = copc.CopcExtent(1, 2)
            c.copc_info.spacing = 4
    how = r.randrange(3)
    if how == 0:
        w1.Close()
    else:
        del w1
        gc.collect()
    getattr(peek, "FileWriter.Close")(w2)
    with open(pa, "rb") as f, open(pb, "rb") as g:
        d1, d2 = f.read(), g.read()
    expect(len(d1) > 500, "file-not-written", "%d bytes after %s" % (len(d1), "Close" if how == 0 else "deleting the writer"))
    expect(d1 == d2 or parsed(d1) == parsed(d2), "file-differs", "%d and %d bytes" % (len(d1), len(d2)))
    H.sig(hash(d1))
    H.count("files")
    return pa, keys, added


def case_files(r, a):
    d = os.path.join(a.tmp, "f")
    os.makedirs(d, exist_ok=True)
    old, a.tmp = a.tmp, d
    try:
        path, keys, added = write_history(r, a, "c")
        rd = copc.FileReader(path)
        P = lambda n: getattr(peek, "FileReader." + n)  # noqa: E731

        def both(name, py, cc, what=""):
            same(attempt(py), attempt(cc), "FileReader." + name, what)
            H.count("queries")
            H.note("query", name)
        both("path", lambda: rd.path, lambda: P("path")(rd))
        both("copc_config", lambda: rd.copc_config, lambda: P("copc_config")(rd))
        nodes = rd.GetAllNodes()
        cfg = rd.copc_config
        for n in "las_header copc_info copc_extents extra_bytes_vlr wkt".split():
            same(attempt(lambda: getattr(cfg, n)), attempt(lambda: getattr(peek, "CopcConfig." + n)(cfg)), "get:CopcConfig." + n, n)
            H.note("attribute", "CopcConfig." + n)
        expect(len(nodes) == len(added), "nodes", "%d added, %d found" % (len(added), len(nodes)))
        for _ in range(12):
            k = r.choice(keys + [key_(r)])
            n = rd.FindNode(k) if r.random() < 0.6 or not nodes else r.choice(nodes)
            b, z = box_(r), r.choice([0, 0, 1, 2.5, 6, 100, -1])
            if r.random() < 0.6:
                b = copc.Box(0, 0, 0, r.choice([250, 500, 1000]), r.choice([450, 1000]), 1000)
            lk, lb = loose("key", k, r), loose("box", b, r)
            q = r.randrange(13)
            if q == 0:
                both("FindNode", lambda: rd.FindNode(lk) if r.random() < 0.5 else rd.FindNode(key=lk), lambda: P("FindNode")(rd, k), str(k))
            elif q < 4:
                name = ("GetPointData", "GetPoints", "GetPointDataCompressed")[q - 1]
                both(name, lambda: getattr(rd, name)(n) if r.random() < 0.5 else getattr(rd, name)(node=n), lambda: P(name)(rd, n), str(n))
                both(name, lambda: getattr(rd, name)(lk) if r.random() < 0.5 else getattr(rd, name)(key=lk), lambda: P(name)(rd, k), str(k))
            elif q == 4:
                both("GetAllChildrenOfPage", lambda: rd.GetAllChildrenOfPage(key=lk), lambda: P("GetAllChildrenOfPage")(rd, k), str(k))
                both("GetAllNodes", lambda: rd.GetAllNodes(), lambda: P("GetAllNodes")(rd))
                both("GetPageList", lambda: rd.GetPageList(), lambda: P("GetPageList")(rd))
            elif q == 5:
                both("GetAllPoints", lambda: rd.GetAllPoints(), lambda: P("GetAllPoints")(rd))
                both("GetAllPoints", lambda: rd.GetAllPoints(resolution=z), lambda: P("GetAllPoints")(rd, z), z)
            elif q in (6, 7, 8):
                name = ("GetNodesWithinBox", "GetNodesIntersectBox", "GetPointsWithinBox")[q - 6]
                both(name, lambda: getattr(rd, name)(lb), lambda: P(name)(rd, b), str(b))
                both(name, lambda: getattr(rd, name)(lb, z) if r.random() < 0.5 else getattr(rd, name)(resolution=z, box=lb), lambda: P(name)(rd, b, z), "%s %s" % (b, z))
            elif q == 9:
                both("GetDepthAtResolution", lambda: rd.GetDepthAtResolution(resolution=z), lambda: P("GetDepthAtResolution")(rd, z), z)
                both("GetMaxDepth", lambda: rd.GetMaxDepth(), lambda: P("GetMaxDepth")(rd))
            elif q == 10:
                both("GetNodesAtResolution", lambda: rd.GetNodesAtResolution(resolution=z), lambda: P("GetNodesAtResolution")(rd, z), z)
                both("GetNodesWithinResolution", lambda: rd.GetNodesWithinResolution(resolution=z), lambda: P("GetNodesWithinResolution")(rd, z), z)
            elif q == 11:
                both("ValidateSpatialBounds", lambda: rd.ValidateSpatialBounds(), lambda: P("ValidateSpatialBounds")(rd))
            else:
                i = cfg.copc_info
                k2 = r.choice(keys)
                both("Resolution", lambda: k2.Resolution(las_header=cfg.las_header, copc_header=i), lambda: getattr(peek, "VoxelKey.Resolution")(k2, cfg.las_header, i), str(k2))
                dd = r.randint(0, 9)
                both("GetResolutionAtDepth", lambda: copc.VoxelKey.GetResolutionAtDepth(copc_header=i, las_header=cfg.las_header, depth=dd),
                     lambda: getattr(peek, "VoxelKey.GetResolutionAtDepth")(dd, cfg.las_header, i), dd)
        # what was read outlives the reader
        ps = rd.GetAllPoints() if nodes else None
        keep = (cfg.las_header, cfg.copc_info, cfg.copc_extents.x, nodes)
        before = canon(list(keep)), canon(ps)
        # read configurations become writers' by conversion
        out = os.path.join(a.tmp, "laz")
        laz_history(r, out, cfg)
        rd.Close()
        del rd, cfg
        gc.collect()
        expect((canon(list(keep)), canon(ps)) == before, "outlives-reader", "")
        for bad_ in (os.path.join(a.tmp, "absent"), a.tmp):
            try:
                copc.FileReader(bad_)
                raise Violation("opened", bad_)
            except RuntimeError:
                pass
        try:
            copc.FileWriter(os.path.join(a.tmp, "absent", "x"), copc.CopcConfigWriter(6))
            raise Violation("opened", "a file in a directory that does not exist")
        except RuntimeError:
            pass
    finally:
        a.tmp = old
        shutil.rmtree(d, ignore_errors=True)


def laz_history(r, stem, cfg):
    pa, pb = stem + "-py", stem + "-cc"
    src = cfg if r.random() < 0.5 else lazconfig_(r)
    if isinstance(src, copc.LazConfigWriter):
        l1 = l2 = src
    else:
        l1 = src if r.random() < 0.5 else copc.LazConfigWriter(src)
        l2 = getattr(peek, "LazConfigWriter()")(src)
        same(canon(copc.LazConfigWriter(src)), canon(l2), "construct:LazConfigWriter(CopcConfig)", "")
        same(canon(copc.CopcConfigWriter(src)), canon(getattr(peek, "CopcConfigWriter()")(src)), "construct:CopcConfigWriter(CopcConfig)", "")
    w1 = copc.LazWriter(pa, l1) if r.random() < 0.5 else copc.LazWriter(config=l1, file_path=pa)
    w2 = getattr(peek, "LazWriter()")(pb, l2)
    same(canon(w1.laz_config), canon(getattr(peek, "LazWriter.laz_config")(w2)), "LazWriter.laz_config", "")
    h = w1.laz_config.las_header
    for _ in range(r.randint(0, 5)):
        n = r.randint(0, 6)
        ps = node_points(r, h, n) if r.random() < 0.9 else points_(r, n)
        if any(abs(v) > 1e6 for p in ps for v in (p.x, p.y, p.z)):
            continue
        if r.random() < 0.5:
            x = attempt(lambda: w1.WritePoints(ps) if r.random() < 0.5 else w1.WritePoints(points=ps))
            y = attempt(lambda: getattr(peek, "LazWriter.WritePoints")(w2, ps))
        else:
            try:
                z = copc.CompressBytes(ps.Pack(h), h)
            except RuntimeError:
                continue
            m = n if r.random() < 0.9 else 0
            x = attempt(lambda: w1.WritePointsCompressed(z, m) if r.random() < 0.5 else w1.WritePointsCompressed(point_count=m, compressed_data=z))
            y = attempt(lambda: getattr(peek, "LazWriter.WritePointsCompressed")(w2, z, m))
        same(x, y, "laz-write", "%d points" % n)
        for c in ("point_count", "chunk_count", "path"):
            u, v = getattr(w1, c), getattr(peek, "LazWriter." + c)(w2)
            expect(u == v or (c == "path" and u == pa and v == pb), "LazWriter." + c, "%s and %s" % (u, v))
    if r.random() < 0.5:
        w1.Close()
    else:
        del w1
        gc.collect()
    getattr(peek, "LazWriter.Close")(w2)
    with open(pa, "rb") as f, open(pb, "rb") as g:
        expect(f.read() == g.read(), "laz-file-differs", "")
    rd = copc.LazReader(pa) if r.random() < 0.5 else copc.LazReader(file_path=pa)
    same(canon(rd.laz_config), canon(getattr(peek, "LazReader.laz_config")(rd)), "LazReader.laz_config", "")
    same(attempt(rd.GetPoints), attempt(lambda: getattr(peek, "LazReader.GetPoints")(rd)), "LazReader.GetPoints", "")
    expect(rd.path == pa, "LazReader.path", rd.path)
    c = rd.laz_config
    for n in "las_header extra_bytes_vlr wkt".split():
        same(attempt(lambda: getattr(c, n)), attempt(lambda: getattr(peek, "LazConfig." + n)(c)), "get:LazConfig." + n, n)
        H.note("attribute", "LazConfig." + n)
    same(canon(copc.LazConfigWriter(c)), canon(getattr(peek, "LazConfigWriter()")(c)), "construct:LazConfigWriter(LazConfig)", "")
    H.count("files")


# ------------------------------------------------------------------ lifetimes and memory
def case_lifetimes(r, a):
    def parts():
        c = config_(r)
        h, i, e = c.las_header, c.copc_info, c.copc_extents
        x, every = e.x, e.extents
        p = points_(r, 4, 7, 1)
        q, it, sl = p[1], iter(p), p[1:3]
        n = node_(r)
        k, g = n.key, n.page_key
        return c, (h, i, e, x, every), (q, it, sl, k, g), p, n
    c, kept, kept2, p, n = parts()
    q, it, sl, k, g = kept2
    before = [canon(v) for v in kept] + [canon(q), canon(sl), canon(k), canon(g)]
    want = addresses(p)
    del c, p, n
    gc.collect()
    junk = [points_(r) for _ in range(5)] + [config_(r) for _ in range(3)]
    expect([canon(v) for v in kept] + [canon(q), canon(sl), canon(k), canon(g)] == before, "part-outlives", "")
    expect([peek.address(x) for x in it] == want, "iterator-outlives", "")
    del junk
    # a part of an object is the object's own
    n = node_(r)
    n.key.d = 7
    expect(n.key.d == 7, "part-of", "node.key.d")
    h = header_(r)
    h.max.x = 17.25
    expect(h.max.x == 17.25, "part-of", "header.max.x")
    e = extents_(r)
    x = copc.CopcExtent(1, 2, 3, 4)
    e.intensity = x
    x.mean = 9
    expect(e.intensity.mean == 9 and peek.addresses(e)[3] == peek.address(x), "part-of", "extents.intensity")
    expect(e.extents[3] is e.intensity or peek.address(e.extents[3]) == peek.address(e.intensity), "part-of", "extents")
    # a configuration given to a writer is copied
    path = os.path.join(a.tmp, "life")
    c = config_(r)
    w = copc.FileWriter(path, c)
    s = canon(w.copc_config)
    c.las_header.file_source_id = (c.las_header.file_source_id + 1) & 65535
    c.copc_info.spacing += 1
    expect(canon(w.copc_config) == s, "writer-shares-config", "")
    h = w.copc_config.las_header
    h.file_source_id = 4242
    w.Close()
    del w
    gc.collect()
    rd = copc.FileReader(path)
    expect(rd.copc_config.las_header.file_source_id == 4242, "writer-header", "a change of the writer's header did not reach the file")
    hs = [rd.copc_config.las_header for _ in range(3)]
    hs[0].file_source_id = 1
    expect(rd.copc_config.las_header.file_source_id == 4242, "reader-header", "a change of a reader's header reached the reader")
    del rd, hs, h, c
    os.remove(path)
    H.sig(r.random())
    H.count("lifetimes")


def scenario_memory(r, a, which):
    """Returns a function that does something and keeps nothing."""
    seed = r.random()
    import random
    path = os.path.join(a.tmp, "memory")

    def points():
        q = random.Random(seed)
        p = points_(q, 6, 7, 1)
        for x in p:
            x.red = 5
        y = p[1:4]
        y.x = [1, 2, 3]
        p[0:3] = y
        p.AddPoints(y)
        p.AddPoints(list(y))
        z = p.Pack((1, 1, 1), (0, 0, 0))
        copc.Points.Unpack(z, 7, 1, (1, 1, 1), (0, 0, 0)).ToPointFormat(8)
        p.GetWithin(copc.Box.MaxBox())
        copc.Points(list(p))
        p.x, p.CreatePoint(), str(p), p[0] == p[1]
        try:
            p.AddPoint(point_(q, 6, 0))
        except RuntimeError:
            pass
        try:
            p[100]
        except IndexError:
            pass
        try:
            p[0:1] = p
        except RuntimeError:
            pass

    def configs():
        q = random.Random(seed)
        c = config_(q)
        c.las_header.min, c.las_header.max = [1, 2, 3], [4, 5, 6]
        c.las_header.guid = "abc"
        c.copc_extents.x = (1, 2)
        c.copc_extents.extents, c.extra_bytes_vlr, c.wkt, str(c.las_header), c.las_header.Bounds()
        copc.CopcConfigWriter(6, extra_bytes_vlr=peek.eb_vlr([1, 2]))
        copc.LazConfigWriter(7)
        try:
            c.las_header.guid = "x" * 40
        except RuntimeError:
            pass
        e = copc.EbVlr(3)
        e.items = e.items[:2]

    def keys():
        q = random.Random(seed)
        k = key_(q)
        k.GetChildren(), k.GetParents(True), hash(k), str(k), k == (1, 2, 3, 4)
        b = copc.Box((1, 2, 3, 4, 5, 6))
        b.Contains((1, 2, 3)), b.Intersects((0, 0, 0, 1, 1, 1)), copc.Vector3([1, 2, 3]) // 2
        for bad_ in ("x", None):
            try:
                copc.VoxelKey(bad_)
            except TypeError:
                pass
        n = node_(q)
        n.key = (1, 0, 0, 0)
        n.key.d

    def pickles():
        q = random.Random(seed)
        pickle.loads(pickle.dumps([node_(q), vec_(q), header_(q), vchar_(q), key_(q)]))
        copy.deepcopy(node_(q))
        try:
            copc.Node.__new__(copc.Node).__setstate__((1,))
        except RuntimeError:
            pass

    def files():
        q = random.Random(seed)
        w = copc.FileWriter(path, copc.CopcConfigWriter(6, (0.125, 0.125, 0.125)))
        w.copc_config.las_header.max = (1000, 1000, 1000)
        for k in ((0, 0, 0, 0), (1, 0, 0, 0)):
            w.AddNode(k, node_points(q, w.copc_config.las_header, 3), page_key=k)
        w.FindNode((1, 0, 0, 0)), w.path
        w.Close()
        rd = copc.FileReader(path)
        n = rd.GetAllNodes()
        rd.GetPoints(n[0]), rd.GetPointData(n[1]), rd.GetAllPoints(), rd.copc_config.copc_extents.x, rd.GetPageList(), rd.ValidateSpatialBounds()
        rd.GetPointsWithinBox((0, 0, 0, 1, 1, 1))
        z = rd.GetPointDataCompressed(n[0])
        copc.DecompressBytes(z, rd.copc_config.las_header, 3)
        try:
            rd.GetPoints((9, 9, 9, 9))
        except RuntimeError:
            pass
        l = copc.LazWriter(path, rd.copc_config)
        l.WritePointsCompressed(z, 3)
        l.Close()
        copc.LazReader(path).GetPoints()
        try:
            copc.FileReader(path + "-absent")
        except RuntimeError:
            pass
    return {"points": points, "configs": configs, "keys": keys, "pickles": pickles, "files": files}[which]


def case_memory(r, a):
    which = r.choice(["points", "configs", "keys", "pickles", "files"])
    f = scenario_memory(r, a, which)
    for _ in range(4):
        f()
    gc.collect()
    used, n = [peek.heap()], 12
    fds = [len(os.listdir("/proc/self/fd"))]
    for _ in range(3):
        for _ in range(n):
            f()
        gc.collect()
        used.append(peek.heap())
        fds.append(len(os.listdir("/proc/self/fd")))
    grew = [b - c for b, c in zip(used[1:], used)]
    expect(min(grew) < 12 * n, "memory-kept:" + which, "each of 3 times %d runs kept %s bytes" % (n, grew))
    expect(min(b - c for b, c in zip(fds[1:], fds)) <= 0, "descriptors-kept:" + which, str(fds))
    H.note("memory", which)
    H.count("memory-runs", 3 * n)
    H.sig(r.random())


def case(r, n, a):
    if n < a.stride:
        presence()
    k = n % 20
    if k < 6:
        case_objects(r)
    elif k < 10:
        case_points(r)
    elif k < 13:
        case_pickle(r)
    elif k < 16:
        case_construct(r)
    elif k < 18:
        case_files(r, a)
    elif k == 18:
        case_lifetimes(r, a)
    else:
        case_memory(r, a)


if __name__ == "__main__":
    common.main(case)
