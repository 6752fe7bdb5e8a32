"""C24: copclib.mp: every selected node is processed exactly once, and what was returned for it arrives."""
import collections, concurrent.futures, copy, gc, multiprocessing, os, pickle, random, shutil, struct, sys, threading, time
import numpy as np
import common
from common import H, Violation, expect

common.parse()
REAL = concurrent.futures.ProcessPoolExecutor
WATCH = None  # the monitor of the current call


# ------------------------------------------------------------------ executors that are watched
class Watch:
    """What the executors of one call saw."""

    def __init__(self, r, real, limit):
        self.r, self.real, self.limit = r, real, limit
        self.flying = self.most = self.submits = self.created = 0
        self.workers = []
        self.lock = threading.Lock()
        self.open = 0

    def up(self):
        with self.lock:
            self.flying += 1
            self.submits += 1
            self.most = max(self.most, self.flying)

    def down(self, _=None):
        with self.lock:
            self.flying -= 1


class RealExecutor(REAL):
    def __init__(self, *a, **kw):
        WATCH.created += 1
        WATCH.workers.append(kw.get("max_workers", a[0] if a else None))
        super().__init__(*a, **kw)

    def submit(self, fn, /, *a, **kw):
        f = super().submit(fn, *a, **kw)
        WATCH.up()
        f.add_done_callback(WATCH.down)
        return f


class SimExecutor(concurrent.futures.Executor):
    """Runs what a pool of processes would run, in this process, one task at a time, in an order the case chooses. What goes in and
    comes out is pickled as a pool would."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self.w = WATCH
        self.w.created += 1
        self.w.workers.append(max_workers)
        self.n = max_workers or 4
        self.start = None if initializer is None else pickle.dumps((initializer, initargs))
        self.r = random.Random(self.w.r.random())
        self.order = self.r.choice(["first", "last", "random", "random", "random"])
        self.gather = self.r.choice([0, 0, 0.001, 0.003])
        self.todo, self.cv, self.closed, self.broken = [], threading.Condition(), False, None
        self.thread = None

    def submit(self, fn, /, *a, **kw):
        with self.cv:
            if self.broken:
                raise concurrent.futures.process.BrokenProcessPool(str(self.broken))
            if self.closed:
                raise RuntimeError("cannot schedule new futures after shutdown")
            f = concurrent.futures.Future()
            self.w.up()
            f.add_done_callback(self.w.down)
            self.todo.append((f, fn, a, kw))
            self.cv.notify_all()
            if self.thread is None:
                self.thread = threading.Thread(target=self.run, daemon=True)
                self.thread.start()
        return f

    def run(self):
        started = 0
        while True:
            with self.cv:
                while not self.todo and not self.closed:
                    self.cv.wait()
                if not self.todo:
                    return
            if self.gather:
                time.sleep(self.gather)
            with self.cv:
                i = {"first": 0, "last": len(self.todo) - 1}.get(self.order, self.r.randrange(len(self.todo)))
                f, fn, a, kw = self.todo.pop(i)
            if self.start and (not started or (started < self.n and self.r.random() < 0.5)):
                started += 1
                try:
                    fn0, args0 = pickle.loads(self.start)
                    fn0(*args0)
                except BaseException as e:
                    self.fail(f, e)
                    return
            if not f.set_running_or_notify_cancel():
                continue
            try:
                task = pickle.dumps((fn, a, kw))
            except BaseException as e:
                f.set_exception(e)
                continue
            try:
                fn, a, kw = pickle.loads(task)
                value = pickle.dumps(fn(*a, **kw))
            except BaseException as e:
                f.set_exception(pickle.loads(pickle.dumps(e)))
                continue
            f.set_result(pickle.loads(value))

    def fail(self, f, e):
        with self.cv:
            self.broken = e
            rest, self.todo = [f] + [t[0] for t in self.todo], []
        for g in rest:
            g.set_exception(concurrent.futures.process.BrokenProcessPool("a worker could not start"))

    def shutdown(self, wait=True, *, cancel_futures=False):
        with self.cv:
            self.closed = True
            if cancel_futures:
                for t in self.todo:
                    t[0].cancel()
            self.cv.notify_all()
        if wait and self.thread:
            self.thread.join()


class Chooser:
    def __new__(cls, *a, **kw):
        return (RealExecutor if WATCH.real else SimExecutor)(*a, **kw)


concurrent.futures.ProcessPoolExecutor = Chooser
import concurrent.futures.process  # noqa: E402
import copclib as copc  # noqa: E402
from copclib.mp.read import read_concat_xyz_class_limit, read_map_xyz_class_limit, read_multithreaded  # noqa: E402
from copclib.mp.transform import transform_multithreaded  # noqa: E402
import mpfun  # noqa: E402

peek = mpfun.peek()
CLASSES = [0, 1, 2, 2, 5, 6, 17]


class Bar:
    """A progress bar."""

    def __init__(self):
        self.resets, self.updates, self.lock = [], 0, threading.Lock()

    def reset(self, total=None):
        self.resets.append(total)

    def update(self, n=1):
        with self.lock:
            self.updates += n


# ------------------------------------------------------------------ files
def make_file(r, path, fmt, eb, big):
    cfg = copc.CopcConfigWriter(fmt, (0.01, 0.01, 0.01) if r.random() < 0.5 else (2 ** -7, 2 ** -7, 2 ** -7), (100, 200, 300) if r.random() < 0.5 else (0, 0, 0), "",
                                peek.eb_vlr([1] * eb))
    # where the points lie: one side of the origin, around it, often exactly at it
    middle = r.choice([(500, 500, 500), (500, 500, 500), (-500, -500, -500), (0, 0, 0), (0, 0, 0), (500, -500, 0), (-2500, 1500, 100000)])
    cfg.las_header.min, cfg.las_header.max = tuple(c - 500 for c in middle), tuple(c + 500 for c in middle)
    i = cfg.copc_info
    i.center_x, i.center_y, i.center_z = middle
    i.halfsize = 500
    at_origin = r.choice([0, 0, 0.3, 0.9]) if all(abs(c) <= 500 for c in middle) else 0
    classes = [r.choice([r.randrange(256), r.choice([31, 32, 33, 34, 63, 64, 66, 127, 128, 130, 255]), r.randrange(32)]) for _ in range(5)] if r.random() < 0.6 else CLASSES
    i.spacing = 10
    w = copc.FileWriter(path, cfg)
    keys = [copc.VoxelKey.RootKey()]
    for _ in range(r.choice([0, 1, 3, 6, 9]) * (4 if big else 1)):
        k = r.choice(keys).Bisect(r.randrange(8))
        if k not in keys and k.d < 6:
            keys.append(k)
    if r.random() < 0.1:
        keys = keys[1:]
    pages = [copc.VoxelKey.RootKey()]
    for k in keys:
        ps = copc.Points(cfg.las_header)
        origin = r.random() < at_origin
        for _ in range(r.choice([1, 2, 5, 9]) * (40 if big and r.random() < 0.3 else 1)):
            p = ps.CreatePoint()
            p.x, p.y, p.z = (0 if origin else r.uniform(c - 500, c + 500) for c in middle)
            p.classification, p.intensity, p.user_data = r.choice(classes), r.randrange(65536), r.randrange(256)
            p.gps_time = r.randrange(1 << 30) / 64
            p.return_number, p.number_of_returns = r.choice([(1, 1), (1, 2), (3, 5)])
            if fmt > 6:
                p.red, p.green, p.blue = (r.randrange(65536) for _ in range(3))
            if eb:
                p.extra_bytes = [r.randrange(256) for _ in range(eb)]
            ps.AddPoint(p)
        page = r.choice([p for p in pages if p == k or k.ChildOf(p) or p.d == 0])
        if r.random() < 0.2:
            page = k
            pages.append(k)
        w.AddNode(k, ps, page)
    w.Close()
    return keys


def log_of(path):
    calls, good, bad, starts, misbehaved, headers, pids = collections.Counter(), 0, 0, {}, collections.Counter(), set(), set()
    order = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                w = line.split()
                if w[0] == "call":
                    calls[w[1]] += 1
                    pids.add(w[2])
                elif w[0] == "arguments":
                    good, bad = good + (w[1] == "good"), bad + (w[1] != "good")
                elif w[0] == "start":
                    starts.setdefault(w[1], []).append(w[2])
                elif w[0] == "misbehaves":
                    misbehaved[w[1]] += 1
                elif w[0] == "header":
                    headers.add(bytes.fromhex(w[1]).decode())
                order.append(w[:3])
    return calls, good, bad, starts, misbehaved, headers, pids, order


class Case:
    def __init__(self, r, a):
        global WATCH
        self.r, self.a = r, a
        self.dir = os.path.join(a.tmp, "c")
        os.makedirs(self.dir, exist_ok=True)
        self.fmt, self.eb = r.choice([6, 7, 8]), r.choice([0, 0, 0, 1, 4])
        self.path = os.path.join(self.dir, "in.copc.laz")
        self.real = r.random() < 0.12
        make_file(r, self.path, self.fmt, self.eb, r.random() < 0.06)
        self.reader = copc.FileReader(self.path)
        self.log = os.path.join(self.dir, "log")
        self.calls = 0

    def fresh_log(self):
        self.calls += 1
        self.log = os.path.join(self.dir, "log%d" % self.calls)

    def select(self, duplicates=True):
        """The nodes of a call, and the arguments that ask for them."""
        r, reader = self.r, self.reader
        k = r.randrange(8)
        if k < 3:
            return reader.GetAllNodes(), {} if k else {"nodes": None}, True
        if k == 3:
            z = r.choice([0, 0.5, 1.3, 2.5, 5, 10, 11, 40])
            return reader.GetNodesWithinResolution(z), {"resolution": z}, True
        every = reader.GetAllNodes()
        if k == 4:
            return (every, {"nodes": every}, False) if r.random() < 0.7 else (every, {"resolution": r.choice([-1, -1.0, -2])}, True)
        if k == 5:
            return [], {"nodes": []}, False
        some = r.sample(every, r.randint(0, len(every)))
        if k == 6 and some and duplicates:
            some += [r.choice(some) for _ in range(r.randint(1, 4))]
            H.count("duplicate-selections")
        return some, {"nodes": some}, False

    def options(self, n):
        r = self.r
        kw = {}
        if r.random() < 0.6:
            kw["chunk_size"] = r.choice([1, 2, 3, max(1, n), n + 1, 1024])
        if self.real or r.random() < 0.5:
            kw["max_workers"] = r.choice([1, 2, 2, 3])
        bar = Bar() if r.random() < 0.7 else None
        if bar:
            kw["progress"] = bar
        return kw, bar

    def call(self, f, kw, n):
        """Runs one of the functions; returns what it returned or raised."""
        global WATCH
        WATCH = self.watch = Watch(self.r, self.real, kw.get("chunk_size", 1024))
        H.count("real-calls" if self.real else "simulated-calls")
        try:
            return "is", f()
        except Exception as e:
            return "raises", e
        finally:
            w = self.watch
            expect(w.most <= w.limit, "too-many-queued", "%d nodes were queued at once, chunk_size is %d" % (w.most, w.limit))
            expect(w.flying == 0, "left-queued", "%d tasks unfinished after the call" % w.flying)
            for m in w.workers:
                expect(m == kw.get("max_workers"), "max-workers", "%s instead of %s" % (m, kw.get("max_workers")))
            left = multiprocessing.active_children()
            expect(not left, "processes-left", str(left))

    def progress(self, bar, reset, n, finished=True):
        if bar is None:
            return
        if reset:
            expect(bar.resets == [n], "progress-reset", "reset with %s, %d nodes" % (bar.resets, n))
        else:
            expect(bar.resets == [], "progress-reset", "reset with %s although nodes were given" % bar.resets)
        expect(bar.updates == n if finished else bar.updates <= n, "progress-update", "%s updates for %d nodes" % (bar.updates, n))
        H.count("progress-bars")

    def exactly_once(self, names, finished=True):
        calls, good, bad, starts, misbehaved, headers, pids, order = log_of(self.log)
        want = collections.Counter(names)
        if finished:
            expect(calls == want, "not-exactly-once", lambda: "calls of the function %s, nodes %s" % (dict(calls), dict(want)))
        else:
            expect(all(calls[k] <= want[k] for k in calls), "more-than-once", lambda: "calls of the function %s, nodes %s" % (dict(calls), dict(want)))
        expect(bad == 0, "function-arguments", "%d calls had other points, nodes, readers or arguments than their node's" % bad)
        for k in calls:
            H.count("nodes-processed", calls[k])
        if self.real and self.watch.workers and self.watch.workers[0]:
            expect(len(pids) <= self.watch.workers[0], "max-workers", "%d processes" % len(pids))
            H.note("worker-processes", len(pids))
        return calls, starts, headers, pids, order

    def waits(self, nodes):
        if self.real and self.r.random() < 0.6:
            return {mpfun.name(n): self.r.choice([0, 0, 0.002, 0.01]) for n in nodes}
        return None

    # -------------------------------------------------------------- reading
    def read(self):
        r = self.r
        nodes, sel, reset = self.select()
        kw, bar = self.options(len(nodes))
        how = r.choice(["nothing", "state", "arrays", "objects", "classes"])
        names = [mpfun.name(n) for n in nodes]
        args = {"log": self.log, "how": how, "waits": self.waits(nodes), "path": self.path, "extra": [1, "a"], "scale": None}
        kept = copy.deepcopy(args)
        states = [peek.state(n) for n in nodes]
        got, main, nested = [], os.getpid(), r.random() < 0.2

        def done(node, **values):
            expect(os.getpid() == main and threading.current_thread() is threading.main_thread(), "callback-elsewhere", "")
            got.append((node, values))
            if nested:
                self.reader.GetPoints(node)
        if r.random() < 0.85:
            kw["completed_callback"] = done
        what, v = self.call(lambda: read_multithreaded(self.reader, mpfun.read, args, **sel, **kw) if r.random() < 0.3 else
                            read_multithreaded(reader=self.reader, read_function=mpfun.read, read_function_args=args, **sel, **kw), kw, len(nodes))
        if what == "raises":
            raise v
        expect(v is None, "returns", str(v))
        self.exactly_once(names)
        self.progress(bar, reset, len(nodes))
        expect(args == kept and [peek.state(n) for n in nodes] == states, "arguments-changed", "")
        if "completed_callback" in kw:
            expect(collections.Counter(mpfun.name(n) for n, _ in got) == collections.Counter(names), "callback-not-exactly-once",
                   "%s for %s" % ([mpfun.name(n) for n, _ in got], names))
            for n, values in got:
                expect(peek.state(n) in states, "callback-node", str(n))
                self.same_values(values, mpfun.outcome(self.reader.GetPoints(n), n, how), n)
                H.count("callbacks")
        H.note("read", how)
        return "read %d nodes, %s" % (len(nodes), how)

    def defaults(self):
        """Calls without arguments for the functions, which need none."""
        r = self.r
        nodes, sel, reset = self.select(False)
        kw, bar = self.options(len(nodes))
        want = {mpfun.name(n): len(self.reader.GetPoints(n)) for n in nodes}
        got = []

        def done(node, number, **values):
            got.append((mpfun.name(node), number))
        if r.random() < 0.5:
            what, v = self.call(lambda: read_multithreaded(self.reader, mpfun.plain_read, completed_callback=done, **sel, **kw), kw, len(nodes))
            where = None
        else:
            where = os.path.join(self.dir, "plain%d" % self.calls)
            w = copc.FileWriter(where, copc.CopcConfigWriter(self.reader.copc_config))
            start = {"mp_init_function": mpfun.plain_start} if r.random() < 0.5 else {}
            what, v = self.call(lambda: transform_multithreaded(self.reader, w, mpfun.plain_transform, completed_callback=done, **sel, **kw, **start), kw, len(nodes))
            w.Close()
        if what == "raises":
            raise v
        expect(sorted(got) == sorted(want.items()), "callback-not-exactly-once", lambda: "%s instead of %s" % (sorted(got), sorted(want.items())))
        self.progress(bar, reset, len(nodes))
        if where:
            other = copc.FileReader(where)
            expect(sorted(mpfun.name(n) for n in other.GetAllNodes()) == sorted(k for k in want if want[k]), "file-nodes", "copied without arguments")
            for n in nodes:
                if want[mpfun.name(n)]:
                    expect(other.GetPointData(other.FindNode(n.key)) == self.reader.GetPointData(n), "file-points", "copied without arguments")
        H.count("calls-with-defaults")
        return "defaults, %d nodes" % len(nodes)

    def same_values(self, got, want, n):
        def plain(v):
            if isinstance(v, np.ndarray):
                return ("array", v.shape, str(v.dtype), v.tobytes())
            if isinstance(v, (copc.VoxelKey, copc.Vector3, copc.Node)):
                return peek.state(v)
            return v
        g, w = ({k: plain(v) for k, v in d.items()} for d in (got, want))
        expect(g == w, "callback-values", lambda: "node %s: %s instead of %s" % (n, str(g)[:600], str(w)[:600]))

    def rows(self, node, limits):
        return [[p.x, p.y, p.z] for p in self.reader.GetPoints(node) if not limits or p.classification in limits]

    def xyz(self):
        r = self.r
        nodes, sel, reset = self.select()
        if r.random() < 0.1:
            nodes, sel, reset = [], {"nodes": []}, False
        kw, bar = self.options(len(nodes))
        present = sorted({p.classification for n in self.reader.GetAllNodes() for p in self.reader.GetPoints(n)})
        limits = r.choice([[], None, [2], [0, 5, 6], [1, 2, 17], [99], CLASSES, present, r.sample(present, min(len(present), 1)), r.sample(present, min(len(present), 1)),
                           r.sample(present, len(present) // 2), [(c + r.choice([32, 64, 128])) % 256 for c in present[:2]], [0], [255]])
        if limits != [] or r.random() < 0.5:
            kw["classification_limits"] = copy.copy(limits)
        kept = copy.copy(limits)
        which = r.randrange(2)
        f = (read_concat_xyz_class_limit, read_map_xyz_class_limit)[which]
        what, v = self.call(lambda: f(self.reader, **sel, **kw) if r.random() < 0.5 else f(reader=self.reader, **sel, **kw), kw, len(nodes))
        if what == "raises":
            raise v
        if "classification_limits" in kw:
            expect(kw["classification_limits"] == kept, "arguments-changed", "classification_limits")
        self.progress(bar, reset, len(nodes))
        if which == 0:
            want = [tuple(x) for n in nodes for x in self.rows(n, limits)]
            expect(isinstance(v, np.ndarray) and v.shape == (len(want), 3) and v.dtype == np.float64, "concat-shape", "%s for %d points" % (getattr(v, "shape", v), len(want)))
            expect(sorted(map(tuple, v.tolist())) == sorted(want), "concat-points", lambda: "%d rows differ" % sum((collections.Counter(map(tuple, v.tolist())) - collections.Counter(want)).values()))
            H.count("concatenated", len(want))
        else:
            want = {str(n.key): np.array(self.rows(n, limits)) for n in nodes if self.rows(n, limits)}
            expect(isinstance(v, dict) and sorted(v) == sorted(want), "map-keys", lambda: "%s instead of %s" % (sorted(v), sorted(want)))
            for k in want:
                expect(isinstance(v[k], np.ndarray) and np.array_equal(v[k], want[k]), "map-points", k)
            H.count("mapped", len(want))
        H.note("limits", "none" if not limits else "above 31" if max(limits) > 31 else "low")
        return f.__name__

    # -------------------------------------------------------------- transforming
    def writer(self, other=None):
        """A writer and the configuration's state."""
        r = self.r
        laz = r.random() < 0.35
        same = r.random() < 0.45
        fmt, eb = (self.fmt, self.eb) if same else (r.choice([6, 7, 8]), r.choice([0, 0, 2]))
        scale = r.choice([(0.01, 0.01, 0.01), (0.5, 0.25, 0.125), (0.001, 0.002, 0.003), (2, 2, 2)])
        offset = r.choice([(0, 0, 0), (0.3, -5, 1000)])
        path = os.path.join(self.dir, "out%d" % self.calls)
        if laz:
            cfg = copc.LazConfigWriter(fmt, scale, offset, "", peek.eb_vlr([1] * eb))
            cfg.las_header.min, cfg.las_header.max = (1, 2, 3), (4, 5, 6)
            w = copc.LazWriter(path, cfg)
            h = w.laz_config.las_header
        else:
            cfg = copc.CopcConfigWriter(self.reader.copc_config)
            if same and r.random() < 0.4:
                w = copc.FileWriter(path, cfg)
            else:
                w = copc.FileWriter(path, cfg, point_format_id=fmt, scale=scale, offset=offset, extra_bytes_vlr=peek.eb_vlr([1] * eb))
            h = w.copc_config.las_header
            h.min, h.max = (1, 2, 3), (4, 5, 6)
        return w, h, laz, path

    def transform(self):
        r = self.r
        self.fresh_log()
        nodes, sel, reset = self.select(False)
        w, h, laz, path = self.writer()
        if laz and nodes and sel.get("nodes") and r.random() < 0.3:
            nodes = nodes + [r.choice(nodes)]
            sel = {"nodes": nodes}
        kw, bar = self.options(len(nodes))
        how = r.choice(["same", "convert", "label", "drop", "drop-all", "shift", "twice", "label", "shift"])
        returns = r.choice(["points", "empty", "values"])
        names = [mpfun.name(n) for n in nodes]
        minmax = r.random() < 0.6
        if minmax or r.random() < 0.3:
            kw["update_minmax"] = minmax
        default = how == "same" and r.random() < 0.7
        tag = "tag%d" % r.randrange(100)
        start = r.random() < 0.4
        if start:
            kw["mp_init_function"], kw["mp_init_function_args"] = mpfun.started, {"log": self.log, "tag": tag}
        args = {"log": self.log, "how": how, "returns": returns, "waits": self.waits(nodes), "path": self.path}
        if default:
            if r.random() < 0.5:
                kw["transform_function"] = None
        else:
            kw["transform_function"], kw["transform_function_args"] = mpfun.transform, args
        kept = copy.deepcopy(args)
        hs = peek.state(h)
        got, main = [], os.getpid()

        def done(node, point_count, compressed_points, **values):
            expect(os.getpid() == main and threading.current_thread() is threading.main_thread(), "callback-elsewhere", "")
            got.append((node, point_count, compressed_points, values))
        if r.random() < 0.85:
            kw["completed_callback"] = done
        # what should come of it
        expected, mismatch = {}, False
        for n in nodes:
            ps = mpfun.changed(self.reader.GetPoints(n), h, how, n.key.x + n.key.y + n.key.z + n.key.d)
            if len(ps) and (ps.point_format_id != h.point_format_id or ps.point_record_length != h.point_record_length):
                mismatch = True
                continue
            vals = mpfun.values(ps, n, "points" if default else returns)
            expected[mpfun.name(n)] = (n, ps.Pack(h), len(ps), vals or {}, copc.Points.Unpack(ps.Pack(h), h) if len(ps) else None)
        what, v = self.call(lambda: transform_multithreaded(self.reader, w, **sel, **kw) if r.random() < 0.3 else
                            transform_multithreaded(reader=self.reader, writer=w, **sel, **kw), kw, len(nodes))
        if mismatch:
            expect(what == "raises" and isinstance(v, RuntimeError), "foreign-points-accepted", lambda: "points of format %d, %d extra bytes for a file of format %d, %d bytes a record: %s"
                   % (self.fmt, self.eb, h.point_format_id, h.point_record_length, v))
            H.count("foreign-results")
            self.partial(w, laz, path, expected, got)
            return "refused"
        if what == "raises":
            raise v
        expect(v is None, "returns", str(v))
        if default:
            calls, starts, headers, pids, order = self.exactly_once([])
        else:
            calls, starts, headers, pids, order = self.exactly_once(names)
            expect(headers <= {hs}, "writer-header", lambda: "functions saw %s, the writer's is %s" % (str(headers)[:600], hs[:600]))
        if start and nodes:
            expect(starts and all(t == tag for v in starts.values() for t in v), "init-function", str(starts))
            expect(pids <= set(starts), "init-function", "%s started, %s worked" % (sorted(starts), sorted(pids)))
            seen = set()
            for line in order:
                if line[0] == "start":
                    seen.add(line[1])
                elif line[0] == "call":
                    expect(line[2] in seen, "init-function", "a process worked before its initialisation")
            H.count("initialisations", len(starts))
        self.progress(bar, reset, len(nodes))
        expect(args == kept, "arguments-changed", "transform_function_args")
        written = [names[i] for i in range(len(names)) if expected[names[i]][2]]
        total = sum(expected[n][2] for n in written)
        # bounds
        if minmax:
            low, high = [0, 0, 0], [0, 0, 0]
            if total:
                xyz = [(p.x, p.y, p.z) for n in written for p in expected[n][4]]
                low, high = [min(c) for c in zip(*xyz)], [max(c) for c in zip(*xyz)]
            expect([h.min.x, h.min.y, h.min.z] == low and [h.max.x, h.max.y, h.max.z] == high, "minmax",
                   lambda: "header %s to %s, stored points %s to %s" % (h.min, h.max, low, high))
            H.count("bounds-updated")
        else:
            expect((h.min.x, h.min.y, h.min.z, h.max.x, h.max.y, h.max.z) == (1, 2, 3, 4, 5, 6), "minmax", "changed to %s, %s without being asked" % (h.min, h.max))
        bounds = [h.min.x, h.min.y, h.min.z, h.max.x, h.max.y, h.max.z]
        if "completed_callback" in kw:
            expect(collections.Counter(mpfun.name(g[0]) for g in got) == collections.Counter(names), "callback-not-exactly-once", "%s for %s" % ([mpfun.name(g[0]) for g in got], names))
            for n, m, z, values in got:
                e = expected[mpfun.name(n)]
                expect(peek.state(n) == peek.state(e[0]), "callback-node", str(n))
                expect(m == e[2], "callback-count", "%d points of %d" % (m, e[2]))
                self.same_values(values, e[3], n)
                if m:
                    expect(peek.state(copc.DecompressBytes(z, h, m)) == peek.state(e[1]), "callback-compressed", str(n))
                H.count("callbacks")
        if r.random() < 0.5:
            w.Close()
        del w, h
        gc.collect()
        self.output(laz, path, expected, written, total, bounds, got)
        H.note("transform", how)
        H.note("output", "laz" if laz else "copc")
        return "transform of %d nodes (%s) to %s" % (len(nodes), how, "LAZ" if laz else "COPC")

    def output(self, laz, path, expected, written, total, bounds, got):
        if laz:
            rd = copc.LazReader(path)
            h = rd.laz_config.las_header
            ps = rd.GetPoints()
            data = bytes(b & 255 for b in self.ints(ps.Pack(h))) if total else b""
            size = h.point_record_length
            expect(len(ps) == total == h.point_count, "points-written", "%d points for %d" % (len(ps), total))
            blocks = [self.bytes_of(expected[n][1]) for n in written]
            # some order of the nodes' blocks
            expect(self.tiles(data, blocks), "chunks-written", "the points of the file are not those of the nodes, one node after another")
            expect(peek_chunks(path) == sorted(expected[n][2] for n in written), "chunk-counts", lambda: "%s for %s" % (peek_chunks(path), [expected[n][2] for n in written]))
        else:
            rd = copc.FileReader(path)
            h = rd.copc_config.las_header
            nodes = {mpfun.name(n): n for n in rd.GetAllNodes()}
            expect(sorted(nodes) == sorted(written), "nodes-written", lambda: "%s for %s" % (sorted(nodes), sorted(written)))
            expect(h.point_count == total, "points-written", "%d points for %d" % (h.point_count, total))
            zs = {mpfun.name(g[0]): g[2] for g in got}
            for k, n in nodes.items():
                e = expected[k]
                expect(peek.state(rd.GetPointData(n)) == peek.state(e[1]), "node-points", lambda: "node %s differs from what the function returned for it" % k)
                expect(n.point_count == e[2] and n.page_key == e[0].page_key, "node-entry", "%s from %s" % (n, e[0]))
                if k in zs:
                    expect(peek.state(rd.GetPointDataCompressed(n)) == peek.state(zs[k]), "node-compressed", k)
            H.count("nodes-written", len(nodes))
        if bounds:
            b = [h.min.x, h.min.y, h.min.z, h.max.x, h.max.y, h.max.z]
            expect(b == bounds, "bounds-in-file", "%s instead of %s" % (b, bounds))

    def ints(self, v):
        return [ord(c) if isinstance(c, str) else c for c in v]

    def bytes_of(self, v):
        return peek.bytes(v)

    def tiles(self, data, blocks):
        if sum(map(len, blocks)) != len(data):
            return False
        left = collections.Counter(blocks)

        def rest(at, budget=[20000]):
            budget[0] -= 1
            if at == len(data):
                return True
            if budget[0] < 0:
                return True  # undecided
            for b in sorted(left, key=len, reverse=True):
                if left[b] and data.startswith(b, at):
                    left[b] -= 1
                    if rest(at + len(b)):
                        return True
                    left[b] += 1
            return False
        return rest(0)

    def partial(self, w, laz, path, expected, got):
        """After a failure: what is in the file is right, and the writer still works."""
        w.Close()
        del w
        gc.collect()
        if laz:
            rd = copc.LazReader(path)
            ps = rd.GetPoints() if rd.laz_config.las_header.point_count else []
            have = collections.Counter(peek.state(p) for p in ps)
            want = collections.Counter(peek.state(p) for e in expected.values() if e[4] is not None for p in e[4])
            expect(not have - want, "written-after-failure", "%d points of the file are no function's result" % sum((have - want).values()))
            return
        rd = copc.FileReader(path)
        nodes = {mpfun.name(n): n for n in rd.GetAllNodes()}
        for k, n in nodes.items():
            expect(k in expected and peek.state(rd.GetPointData(n)) == peek.state(expected[k][1]), "written-after-failure", "node %s" % k)
        H.count("partial-files")

    # -------------------------------------------------------------- failures
    def failures(self):
        r = self.r
        self.fresh_log()
        k = r.randrange(13)
        nodes = self.reader.GetAllNodes()
        if not nodes:
            return "nothing"
        names = [mpfun.name(n) for n in nodes]
        kw, bar = self.options(len(nodes))
        got = []
        kw["completed_callback"] = lambda node, **v: got.append(mpfun.name(node))
        reading = r.random() < 0.5
        victim = r.choice(names)
        do, kinds, untouched = {}, None, False
        sel = r.choice([{}, {"nodes": nodes}])
        read_args = {"log": self.log, "how": "state", "path": self.path, "extra": [1, "a"], "scale": None, "do": do}
        w = h = path = laz = None
        if not reading:
            w, h, laz, path = self.writer()
        tr_args = {"log": self.log, "how": "label", "returns": "values", "path": self.path, "do": do}
        args = read_args if reading else tr_args
        extra, msg = {}, None
        if k == 0:
            sel, kinds, untouched = {"nodes": nodes, "resolution": r.choice([0, 1, 5])}, RuntimeError, True
        elif k == 1:
            args[r.choice(["points", "node", "reader"] + ([] if reading else ["writer_header"]))] = 1
            kinds, untouched = AssertionError, True
        elif k == 2:
            do[victim], kinds, msg = "value", ValueError, "boom " + victim
        elif k == 3:
            do[victim], kinds, msg = "odd", mpfun.Odd, "boom " + victim
        elif k == 4:
            do[victim], kinds = ("list" if r.random() < 0.5 else "none", AssertionError) if reading else (r.choice(["triple", "not-dict"]), AssertionError)
        elif k == 5:
            if reading or not h:
                return "nothing"
            do[victim], kinds = r.choice(["foreign", "same-size", "same-record"]), RuntimeError
        elif k == 6:
            if not self.real and r.random() < 0.7:
                self.real = True
                kw["max_workers"] = 2
            if not self.real:
                return "nothing"
            do[victim], kinds = "die", Exception
        elif k == 7:
            if reading:
                args["unasked"] = 1
                extra = {"read_function": self.reader}  # not callable in a worker, nor can it be pickled
                kinds, untouched = Exception, True
            else:
                extra = {"mp_init_function": mpfun.failing_start, "mp_init_function_args": {"log": self.log, "tag": "x"}}
                kinds, untouched = Exception, True
        elif k == 8:
            if reading:
                f = r.choice([read_concat_xyz_class_limit, read_map_xyz_class_limit])
                bad = r.choice([{"filter_function": 1}, {"filter_function_args": {}}, {"completed_callback": print}, {"classification_limits": 3}, {"classification_limits": (1, 2)},
                                {"nodes": nodes, "resolution": r.choice([0, 1])}])
                what, v = self.call(lambda: f(self.reader, progress=bar, **bad), {}, 0)
                expect(what == "raises" and isinstance(v, (RuntimeError, AssertionError)), "bad-call-accepted", "%s: %s" % (sorted(bad), v))
                expect(not bar or not bar.resets and not bar.updates, "bad-call-effect", "progress")
                H.note("failure", "bad " + min(bad))
                H.count("failures")
                return "bad call"
            w0, w = w, r.choice([None, 5, "x", self.reader, copc.LasHeader()])
            kinds, untouched = RuntimeError, True
        elif k == 9:
            n = copc.Node()
            sel, kinds = {"nodes": nodes + [n]}, RuntimeError
            names = names + [mpfun.name(n)]
        elif k == 10:
            def complain(node, **v):
                got.append(mpfun.name(node))
                if len(got) == stop:
                    raise mpfun.Odd("enough")
            stop = r.randint(1, len(names))
            kw["completed_callback"], kinds, msg = complain, mpfun.Odd, "enough"
        elif k == 11:
            kw["max_workers"], kinds, untouched = 0, ValueError, True
        else:
            gone = self.path + ".gone"
            os.rename(self.path, gone)
            kinds, untouched = Exception, True
        if reading:
            def f():
                return read_multithreaded(**{**dict(reader=self.reader, read_function=mpfun.read, read_function_args=args), **sel, **kw, **extra})
        else:
            def f():
                return transform_multithreaded(**{**dict(reader=self.reader, writer=w, transform_function=mpfun.transform, transform_function_args=args), **sel, **kw, **extra})
        # nodes whose results are of no use are not in the file
        expected = {}
        if not reading:
            for n in nodes:
                if mpfun.name(n) in do:
                    continue
                ps = mpfun.changed(self.reader.GetPoints(n), h, "label", n.key.x + n.key.y + n.key.z + n.key.d)
                expected[mpfun.name(n)] = (n, ps.Pack(h), len(ps), {}, copc.Points.Unpack(ps.Pack(h), h))
        what, v = self.call(f, kw, len(nodes))
        if k == 12:
            os.rename(gone, self.path)
        tag = "%s-%d" % ("read" if reading else "transform", k)
        expect(what == "raises", "failure-unreported:" + tag, "%s with %s" % (do or sorted(extra) or k, str(v)[:300]))
        expect(isinstance(v, kinds), "failure-kind:" + tag, "%s: %s instead of %s" % (type(v).__name__, str(v)[:300], kinds))
        if msg:
            expect(str(v) == msg, "failure-message:" + tag, "%s instead of %s" % (v, msg))
        self.exactly_once(names, False)
        calls = log_of(self.log)[0]
        if untouched:
            expect(not calls and not got, "failure-effect:" + tag, "%s calls, callbacks for %s" % (dict(calls), got))
        c = collections.Counter(got)
        expect(all(c[n] <= 1 for n in c), "callback-more-than-once", str(got))
        expect(k == 6 or all(n not in do for n in c), "callback-for-failure", "%s for %s" % (got, do))
        if bar:
            expect(bar.updates <= len(names), "progress-update", str(bar.updates))
        # everything still works
        if not reading:
            if k == 8:
                w = w0
            self.partial(w, laz, path, expected, got)
        del w, h
        saved, self.real = self.real, False
        self.fresh_log()
        if r.random() < 0.6:
            self.read()
        self.real = saved
        H.note("failure", tag)
        H.count("failures")
        return "failure " + tag


def peek_chunks(path):
    """The point counts of the chunks of a LAZ file with variable chunks."""
    return sorted(peek.laz_chunks(path))


def case(r, n, a):
    c = Case(r, a)
    try:
        done = []
        for _ in range(r.choice([1, 1, 2]) if c.real else r.randint(2, 5)):
            k = r.randrange(11)
            c.fresh_log()
            done.append(c.read() if k < 3 else c.xyz() if k < 5 else c.transform() if k < 8 else c.failures() if k < 10 else c.defaults())
            H.count("calls")
        H.sig(r.random())
        H.sample("%s%d nodes of format %d: %s" % ("in processes, " if c.real else "", len(c.reader.GetAllNodes()), c.fmt, "; ".join(done)))
    finally:
        del c.reader
        shutil.rmtree(c.dir, ignore_errors=True)


if __name__ == "__main__":
    common.main(case)
