"""What the Python workers share: command line, recording, random values."""
import argparse, json, os, random, resource, signal, struct, sys, traceback


class Violation(Exception):
    def __init__(self, key, detail=""):
        super().__init__(key, detail)
        self.key, self.detail = key, str(detail)


class Recorder:
    def __init__(self, path):
        self.f = open(path, "a") if path else None
        self.counts, self.sets, self.samples = {}, {}, 0

    def line(self, **j):
        if self.f:
            self.f.write(json.dumps(j) + "\n")
            self.f.flush()

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def note(self, k, v):
        s = self.sets.setdefault(k, set())
        if len(s) < 400 and v not in s:
            s.add(v)
            self.line(t="s", k=k, v=str(v))

    def sample(self, text):
        if self.samples < 2:
            self.samples += 1
            self.line(t="e", v=text[:1500])

    def sig(self, v):
        self.line(t="g", v=str(v))


H = Recorder(None)
args = None


def expect(ok, key, detail=""):
    if not ok:
        raise Violation(key, detail() if callable(detail) else detail)


def peek_module():
    """The module in the same shared object as copclib's, with direct access to the C++ objects."""
    import importlib.machinery, importlib.util
    import copclib._core as core
    loader = importlib.machinery.ExtensionFileLoader("_peek", core.__file__)
    spec = importlib.util.spec_from_loader("_peek", loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    return m


def parse():
    global args
    p = argparse.ArgumentParser()
    for name, default in (("mode", ""), ("tier", "quick"), ("out", ""), ("progress", ""), ("tmp", ".")):
        p.add_argument("--" + name, default=default)
    for name, default in (("seed", 1), ("first", 0), ("stride", 1), ("count", 1), ("cpu", 60), ("verbose", 0)):
        p.add_argument("--" + name, type=int, default=default)
    args = p.parse_args()
    H.__init__(args.out)
    return args


def main(case):
    a = args or parse()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    progress = open(a.progress, "wb") if a.progress else None
    n, done, reported = a.first, 0, {}
    while n < a.count:
        if progress:
            progress.seek(0)
            progress.write(struct.pack("<Q", n))
            progress.flush()
        signal.setitimer(signal.ITIMER_PROF, a.cpu)
        signal.setitimer(signal.ITIMER_REAL, a.cpu * 4)
        r = random.Random("%d/%s/%d" % (a.seed, a.mode, n))
        try:
            case(r, n, a)
        except Violation as v:
            reported[v.key] = reported.get(v.key, 0) + 1
            if reported[v.key] <= 3:
                H.line(t="v", key=v.key, case=n, seed=a.seed, mode=a.mode, detail=v.detail[:3000])
            if a.verbose:
                print(v.key, v.detail)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            key = "unexpected-exception:" + type(e).__name__
            reported[key] = reported.get(key, 0) + 1
            if reported[key] <= 3:
                H.line(t="v", key=key, case=n, seed=a.seed, mode=a.mode, detail=traceback.format_exc()[-3000:])
            if a.verbose:
                traceback.print_exc()
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        done += 1
        n += a.stride
    for k, v in H.counts.items():
        H.line(t="c", k=k, n=v)
    H.line(t="d", n=done)
    if H.f:
        H.f.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


# ------------------------------------------------------------------ random values
def real(r, wild=True):
    k = r.randrange(10)
    if k == 0 and wild:
        return r.choice([0.0, -0.0, float("inf"), float("-inf"), float("nan"), 1e308, 5e-324, -1e-300, 2.0 ** 53])
    if k < 4:
        return float(r.randint(-20, 20))
    if k < 6:
        return r.randint(-2000000, 2000000) / 1024
    return r.uniform(-1000, 1000) * 10 ** r.randint(-6, 6)


def integer(r, lo, hi):
    k = r.randrange(6)
    if k == 0:
        return r.choice([lo, hi, lo + 1, hi - 1])
    if k < 3:
        return r.randint(max(lo, -4), min(hi, 20))
    return r.randint(lo, hi)


def text(r, n):
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyzABC 0123_-./é€") if r.random() < 0.05 else r.choice("abcdefXYZ 019_-") for _ in range(r.randint(0, n)))
