#!/usr/bin/env python3
"""Builds copc-lib from /repo's working tree under sanitizers, drives it with the seeded workloads of harness/,
and turns what the monitors observed into a verdict.

  run.py <property> [quick|thorough]     exit 0 held, 1 violated (VIOLATION line), 2 no answer
  run.py setup                           builds everything once
  run.py replay <replay file>            runs one recorded case again, verbosely
"""
import concurrent.futures, fnmatch, glob, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", "8"))
BASE = ["-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer", "-include", HERE + "/standin/prelude.hpp",
        "-I" + REPO + "/cpp/include", "-I" + HERE + "/standin", "-I" + HERE + "/harness"]
FLAVORS = {
    "asan": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    # the Python module: the library, /repo/python/bindings.cpp against the pybind11 stand-in, and py/peek.cpp
    "py": ["-O1", "-fPIC", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
           "-I/usr/include/python3.12"],
    "pic": ["-O1", "-fPIC", "-fvisibility=hidden", "-fsanitize=undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:hard_rss_limit_mb=3000:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=1:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:allocator_may_return_null=1:exitcode=98:second_deadlock_stack=1",
})


PYTHON = "python3-vt"


def py_env(d):
    rt = sorted(glob.glob("/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.asan-x86_64.so"))
    if not rt:
        raise NoAnswer("no shared ASan runtime")
    e = dict(ENV)
    e.update({"LD_PRELOAD": rt[-1], "PYTHONPATH": d + ":" + HERE + "/py", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
              "OPENBLAS_NUM_THREADS": "1",
              "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:handle_abort=0"})
    return e


class NoAnswer(Exception):
    pass


# ------------------------------------------------------------------ building
def tree_files():
    out = []
    for root in (REPO + "/cpp", REPO + "/python", HERE + "/standin", HERE + "/harness", HERE + "/py"):
        for d, _, fs in os.walk(root):
            if "__pycache__" not in d:
                out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def digest(extra=""):
    h = hashlib.sha256(extra.encode())
    for f in tree_files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as s:
            h.update(s.read() + b"\0")
    return h.hexdigest()[:16]


def sh(cmd, timeout=800, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)


def lib_sources():
    return sorted(glob.glob(REPO + "/cpp/src/**/*.cpp", recursive=True)) + [HERE + "/standin/lazperf/standin.cpp"]


def compile_one(src, obj, flags):
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    low = ["-O0"] if "/py_" in obj else []  # the bindings are compiled four times as fast, and run no slower
    p = sh(["clang++"] + BASE + flags + low + ["-c", src, "-o", tmp])
    if p.returncode:
        return "%s does not compile\n%s" % (src, p.stdout[-3000:])
    os.replace(tmp, obj)
    return None


def build(flavor, harnesses, root=None):
    """Returns the build directory with lib objects and the named harness executables."""
    flags = FLAVORS[flavor]
    d = os.path.join(HERE, "build", flavor + "-" + digest(" ".join(flags)))
    os.makedirs(d, exist_ok=True)
    objs, jobs = [], []
    for s in lib_sources():
        o = os.path.join(d, hashlib.md5(s.encode()).hexdigest()[:6] + "_" + os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append((s, o))
    if flavor == "py":
        for s in sorted(glob.glob(REPO + "/python/*.cpp")) + [HERE + "/py/peek.cpp"]:
            objs.append(os.path.join(d, "py_" + os.path.basename(s) + ".o"))
            jobs.insert(0, (s, objs[-1]))
        harnesses = []
    for h in harnesses:
        s = HERE + "/harness/h_%s.cpp" % h
        jobs.append((s, os.path.join(d, "h_%s.o" % h)))
    jobs.sort(key=lambda j: 0 if "/h_" in j[0] or "/py" in j[0] else 1)  # the big ones first
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(j[0], j[1], flags), jobs) if e]
    if errs:
        raise NoAnswer("build failed:\n" + "\n".join(errs))
    if flavor == "py" and not os.path.exists(d + "/copclib/_core.so"):
        tmp = tempfile.mkdtemp(prefix="pkg", dir=d)
        shutil.copytree(REPO + "/python/copclib", tmp + "/copclib", ignore=shutil.ignore_patterns("__pycache__", "*.so"))
        p = sh(["clang++", "-shared", "-fsanitize=address,undefined", "-shared-libasan"] + objs + ["-o", tmp + "/copclib/_core.so"])
        if p.returncode:
            raise NoAnswer("link failed: " + p.stdout[-3000:])
        try:
            os.rename(tmp + "/copclib", d + "/copclib")
        except OSError:  # another run was faster
            pass
        shutil.rmtree(tmp, ignore_errors=True)
    for h in harnesses:
        exe = os.path.join(d, "h_" + h)
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            p = sh(["clang++"] + flags + [os.path.join(d, "h_%s.o" % h)] + objs + ["-o", tmp, "-lpthread", "-ldl"])
            if p.returncode:
                raise NoAnswer("link failed: " + p.stdout[-3000:])
            os.replace(tmp, exe)
    return d


def prune_builds(keep=8):
    ds = sorted(glob.glob(HERE + "/build/*-*"), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ sanitizer reports -> keys
def crash_key(text, rc):
    kind = None
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+( race)?)", text)
    if m:
        kind = m.group(2).replace(" ", "-")
    u = re.search(r"runtime error: ([^\n]*)", text)
    if u:
        kind = "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"[-0-9.e+x']+", "", u.group(1).lower()))[:40].strip("-")
    if "hard rss limit" in text:
        kind = "memory-limit"
    if not kind:
        if "terminate called" in text or rc in (-6, 134):
            kind = "terminate"
            m = re.search(r"what\(\):\s*(.*)", text)
            a = re.search(r"Assertion '([^']*)' failed", text)
            if a:
                kind = "assertion"
        elif rc == 77:
            kind = "cpu-limit"
        else:
            kind = "signal%d" % -rc if rc < 0 else "exit%d" % rc
    fn = ""
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?([^\n]*?)(?: /|\s\()", text):
        if "copc::" in m.group(1):
            fn = re.sub(r"\(.*", "", m.group(1))
            fn = re.sub(r"<.*?>", "", fn)
            break
    return "%s:%s" % (kind, fn or "?")


# ------------------------------------------------------------------ running
class Run:
    def __init__(self):
        self.v, self.counters, self.sets, self.samples, self.sigs, self.done, self.notes = [], {}, {}, [], set(), 0, []

    def take(self, path, run):
        done = False
        if not os.path.exists(path):
            return done
        with open(path, errors="replace") as f:
            for line in f:
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                t = j["t"]
                if t == "v":
                    j["run"] = run
                    self.v.append(j)
                elif t == "c":
                    self.counters[j["k"]] = self.counters.get(j["k"], 0) + j["n"]
                elif t == "s":
                    self.sets.setdefault(j["k"], set()).add(j["v"])
                elif t == "e":
                    self.samples.append(j["v"])
                elif t == "g":
                    self.sigs.add(j["v"])
                elif t == "d":
                    done = True
                    self.done += j["n"]
        return done


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))


def program(flavor, d, h):
    """What runs the harness, and its environment."""
    if flavor == "py":
        return [PYTHON, HERE + "/py/w_%s.py" % h], py_env(d)
    return [os.path.join(d, "h_" + h)], dict(ENV)


def spawn(exe, args, err, env):
    return subprocess.Popen(exe + args, stdout=err, stderr=err, env=env, preexec_fn=limits, start_new_session=True)


def sweep(p):
    """Ends what the harness left running."""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def kill(p):
    sweep(p)
    p.wait()


def code(rc):
    return 77 if rc in (-signal.SIGPROF, -signal.SIGALRM) else rc  # the limits of the Python workers


def shard(exe, run, tier, seed, i, n, tmp, R, deadline, env, lock, stop):
    mode, count = run["mode"], run["count"]
    first, restarts = i, 0
    while first < count and not stop:
        base = os.path.join(tmp, "%s-%s-%d-%d" % (mode, run.get("flavor", "asan"), i, restarts))
        out, prog, errp = base + ".jsonl", base + ".p", base + ".err"
        sub = base + ".d"
        os.makedirs(sub)
        args = ["--mode", mode, "--tier", tier, "--seed", str(seed), "--first", str(first), "--stride", str(n), "--count", str(count),
                "--out", out, "--progress", prog, "--tmp", sub, "--cpu", str(run.get("cpu", 60))]
        with open(errp, "wb") as err:
            p = spawn(exe, args, err, env)
            try:
                rc = code(p.wait(max(5, deadline - time.time())))
                sweep(p)
            except subprocess.TimeoutExpired:
                kill(p)
                rc = 76
        shutil.rmtree(sub, ignore_errors=True)
        with lock:
            finished = R.take(out, run)
        if finished and rc == 0:
            return
        with open(errp, errors="replace") as f:
            text = f.read()
        try:
            with open(prog, "rb") as f:
                case = struct.unpack("<Q", f.read(8))[0]
        except (OSError, struct.error):
            case = first
        if rc in (2, 3) and "Sanitizer" not in text:
            with lock:
                R.notes.append("harness error rc=%d: %s" % (rc, text[-500:]))
            return
        if rc in (76, 77):  # ran out of time: alone, is it the case or the machine?
            sub = base + ".again"
            os.makedirs(sub)
            with open(errp, "wb") as err:
                p = spawn(exe, ["--mode", mode, "--tier", tier, "--seed", str(seed), "--first", str(case), "--stride", "1", "--count", str(case + 1),
                                "--out", os.devnull, "--tmp", sub, "--cpu", str(run.get("cpu", 60))], err, env)
                try:
                    rc2 = code(p.wait(run.get("cpu", 60) * 5 + 30))
                    sweep(p)
                except subprocess.TimeoutExpired:
                    kill(p)
                    rc2 = 76
            shutil.rmtree(sub, ignore_errors=True)
            with lock:
                if rc2 in (76, 77):
                    R.v.append({"key": "no-termination", "case": case, "seed": seed, "mode": mode, "run": run,
                                "detail": "the case used up its %s s of CPU time twice" % run.get("cpu", 60)})
                    stop.append(1)
                elif rc == 76:
                    R.notes.append("inconclusive: ran out of wall time at case %d" % case)
            if rc == 76:
                return
        else:
            with lock:
                R.v.append({"key": "crash:" + crash_key(text, rc), "case": case, "seed": seed, "mode": mode, "run": run,
                            "detail": text[:3500]})
        restarts += 1
        if restarts > 4:
            stop.append(1)
            return
        first = case + n


def known(pid):
    out = []
    p = HERE + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def execute_harness(pid, spec, tier, seed, R, t0):
    import threading
    lock = threading.Lock()
    by_flavor = {}
    for run in spec["runs"]:
        by_flavor.setdefault(run.get("flavor", "asan"), set()).add(run["h"])
    dirs = {f: build(f, sorted(hs)) for f, hs in by_flavor.items()}
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    wall = float(spec.get("wall", 800 if tier == "quick" else 14400))
    planned = 0
    try:
        for run in spec["runs"]:
            run = dict(run)
            run["count"] = run[tier] if tier in run else run["quick"]
            if not run["count"]:
                continue
            planned += run["count"]
            flavor = run.get("flavor", "asan")
            exe, env = program(flavor, dirs[flavor], run["h"])
            env.update(run.get("env", {}))
            n = min(run.get("shards", JOBS), run["count"])
            stop = []
            with concurrent.futures.ThreadPoolExecutor(n) as ex:
                fs = [ex.submit(shard, exe, run, tier, seed, i, n, tmp, R, t0 + wall, env, lock, stop) for i in range(n)]
                for f in fs:
                    f.result()
            if R.v and tier == "quick":
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return planned


def verdict(pid, spec, tier, seed, R, planned, t0):
    """Prints the verdict lines, writes the evidence, returns the exit code."""
    fresh, listed = {}, {}
    kf = known(pid)
    for v in R.v:
        hit = next((k for k in kf if fnmatch.fnmatchcase(v["key"], k[0])), None)
        (listed if hit else fresh).setdefault(hit or v["key"], []).append(v)
    for (key, what), vs in listed.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    rc = 0
    if fresh:
        rc = 1
        os.makedirs(HERE + "/replays", exist_ok=True)
        for n, (key, vs) in enumerate(sorted(fresh.items())[:10]):
            v = vs[0]
            path = "replays/%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:60])
            with open(os.path.join(HERE, path), "w") as f:
                run = v.get("run") or {}
                json.dump({"property": pid, "key": key, "mode": v.get("mode"), "case": v.get("case"), "seed": seed, "tier": tier,
                           "h": run.get("h"), "flavor": run.get("flavor", "asan"), "env": run.get("env", {}), "cpu": run.get("cpu", 60),
                           "detail": v["detail"], "times": len(vs)}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s: %s" % (key, v["detail"][:600].replace("\n", "\n  ")))
    floors = spec.get("floors", {})
    if rc == 0:
        if R.notes:
            print("NO ANSWER: " + "; ".join(R.notes))
            rc = 2
        elif R.done < planned:
            print("NO ANSWER: only %d of %d cases ran" % (R.done, planned))
            rc = 2
        else:
            for k, n in floors.items():
                have = len(R.sets[k]) if k in R.sets else R.counters.get(k, 0)
                if have < n:
                    print("NO ANSWER: observed %d %s, at least %d are needed" % (have, k, n))
                    rc = 2
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": R.counters.get(spec["unit"], 0) if "unit" in spec else R.done, "cases": R.done, "distinct_nontrivial": len(R.sigs), "rule": spec["rule"], "samples": R.samples[:6] or ["none"],
            "observed_counts": R.counters,
            "observed_kinds": {k: {"distinct": len(s), "values": sorted(s)[:60]} for k, s in sorted(R.sets.items())},
        },
        "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 1),
        "violations": sum(len(v) for v in fresh.values()),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(HERE + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print("held: %s on %d cases (%d distinct), %.0f s" % (pid, R.done, len(R.sigs), time.time() - t0))
    return rc


COMMON_ASSUMPTIONS = [
    "laz-perf is not installed here: the library is compiled against /verif/standin, which has laz-perf 3.0's interface and "
    "real LAS/VLR/EVLR layouts but its own chunk codec",
    "only what the generated workloads reach was observed",
]


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    what = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if what == "setup":
        todo = {}
        for s in CHECKS.values():
            for run in s.get("runs", []):
                todo.setdefault(run.get("flavor", "asan"), set()).add(run["h"])
        for f, hs in todo.items():
            build(f, sorted(hs))
        return 0
    if what == "replay":
        j = json.load(open(sys.argv[2]))
        if not j.get("h"):
            print(json.dumps(j, indent=1))
            return 0
        d = build(j["flavor"], [j["h"]])
        tmp = tempfile.mkdtemp(prefix="vf-replay-")
        exe, env = program(j["flavor"], d, j["h"])
        env.update(j["env"])
        try:
            p = subprocess.run(exe + ["--mode", j["mode"], "--tier", j["tier"], "--seed", str(j["seed"]), "--first", str(j["case"]), "--count",
                                str(j["case"] + 1), "--tmp", tmp, "--cpu", str(j["cpu"]), "--verbose", "1"], env=env)
            print("exit", p.returncode)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = CHECKS[what]
    t0 = time.time()
    R = Run()
    try:
        planned = execute_harness(what, spec, tier, seed, R, t0)
        rc = verdict(what, spec, tier, seed, R, planned, t0)
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        rc = 2
    prune_builds()
    return rc


if __name__ == "__main__":
    sys.exit(main())
