"""Shared plumbing of the checks: building the compiler from /repo's working tree,
running TLC, known findings, evidence, VIOLATION lines."""

import contextlib
import fcntl
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
JOBS = max(2, min(8, os.cpu_count() or 4))
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

os.makedirs(BUILD, exist_ok=True)


class CheckError(Exception):
    """The check itself could not run (exit 2), which is neither 'held' nor 'broken'."""


def pick(quick, thorough):
    return quick if QUICK else thorough


def rng(*salt):
    return random.Random("%d/%s" % (SEED, "/".join(map(str, salt))))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --- processes -------------------------------------------------------------


def base_env(**more):
    env = {
        "PATH": "/usr/lib/ccache:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LANG": "C.UTF-8",
        "LC_ALL": "C.UTF-8",
        "HOME": os.path.join(BUILD, "home"),
        "TMPDIR": os.path.join(BUILD, "tmp"),
        "CCACHE_DIR": os.path.join(BUILD, "ccache"),
        "CCACHE_MAXSIZE": "3G",
        "CCACHE_COMPILERCHECK": "content",
        "CCACHE_NOHASHDIR": "1",
    }
    env.update({k: str(v) for k, v in more.items()})
    for d in (env["HOME"], env["TMPDIR"], env["CCACHE_DIR"]):
        os.makedirs(d, exist_ok=True)
    return env


class Run:
    def __init__(self, rc, out, err, timed_out, wall):
        self.rc, self.out, self.err, self.timed_out, self.wall = rc, out, err, timed_out, wall

    @property
    def ok(self):
        return self.rc == 0 and not self.timed_out


def run(cmd, timeout=600, cwd=None, env=None, stdin=None, mem_gb=None, merge=False):
    """Runs cmd in its own process group; kills the group afterwards."""

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * (1 << 30)),) * 2)

    t0 = time.time()
    p = subprocess.Popen(
        cmd,
        cwd=cwd,
        env=env or base_env(),
        stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT if merge else subprocess.PIPE,
        start_new_session=True,
        preexec_fn=pre,
    )
    timed_out = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
        with contextlib.suppress(ProcessLookupError):
            os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
    with contextlib.suppress(ProcessLookupError):
        os.killpg(p.pid, signal.SIGKILL)
    return Run(p.returncode, out or b"", err or b"", timed_out, time.time() - t0)


@contextlib.contextmanager
def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


@contextlib.contextmanager
def scratch(name):
    os.makedirs(os.path.join(BUILD, "scratch"), exist_ok=True)
    d = tempfile.mkdtemp(prefix=name + ".", dir=os.path.join(BUILD, "scratch"))
    try:
        yield d
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


# --- the tree under test ---------------------------------------------------


def tree_files():
    out = []
    for top in ("src", "lib", "include"):
        for d, _, names in os.walk(os.path.join(REPO, top)):
            for n in names:
                p = os.path.join(d, n)
                if os.path.isfile(p):
                    out.append(os.path.relpath(p, REPO))
    return sorted(out)


def tree_hash(prefixes=("src", "lib", "include")):
    h = hashlib.sha256()
    for f in tree_files():
        if f.startswith(tuple(p + "/" for p in prefixes)):
            with open(os.path.join(REPO, f), "rb") as fh:
                d = fh.read()
            h.update(("%s %d\n" % (f, len(d))).encode())
            h.update(d)
    return h.hexdigest()[:24]


def mk_fu_home(home):
    # fs::mkdir_p is not what is under test wherever a home is needed.
    for d in ("cpp", "obj", "bin", "out", "tmp"):
        os.makedirs(os.path.join(home, ".fu/cache", d), exist_ok=True)
    return home


def sync_tree(dst):
    want = set(tree_files())
    for top in ("src", "lib", "include"):
        for d, _, names in os.walk(os.path.join(dst, top)):
            for n in names:
                p = os.path.join(d, n)
                if os.path.relpath(p, dst) not in want:
                    os.remove(p)
    for f in want:
        s, t = os.path.join(REPO, f), os.path.join(dst, f)
        with open(s, "rb") as fh:
            data = fh.read()
        if os.path.exists(t):
            with open(t, "rb") as fh:
                if fh.read() == data:
                    continue
        os.makedirs(os.path.dirname(t), exist_ok=True)
        with open(t, "wb") as fh:
            fh.write(data)


class BuildBroken(Exception):
    pass


def fu_compiler():
    """Builds the compiler as /repo's own build does: the C++ snapshot gives an old
    compiler, which compiles src/cli.fu. Returns the tree (bin/fu inside)."""
    tree = os.path.join(BUILD, "fu")
    with locked("fu"):
        want = tree_hash()
        stamp = os.path.join(BUILD, "fu.stamp")
        exe = os.path.join(tree, "bin/fu")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
            return tree
        t0 = time.time()
        if os.path.exists(stamp):
            os.remove(stamp)
        os.makedirs(os.path.join(tree, "bin"), exist_ok=True)
        sync_tree(tree)
        env = base_env(FU_ROOT=tree + "/")
        # neither that old compiler nor the one under test has to be right about which objects are stale
        headers, hstamp = tree_hash(("include",)), os.path.join(BUILD, "include.stamp")
        if not os.path.exists(hstamp) or open(hstamp).read() != headers:
            for home in {env["HOME"], os.path.join(BUILD, "home")}:
                for d in ("obj", "bin"):
                    shutil.rmtree(os.path.join(home, ".fu/cache", d), ignore_errors=True)
            with open(hstamp, "w") as f:
                f.write(headers)
        mk_fu_home(env["HOME"])
        # /repo's snapshot of an old compiler, only a tool to build the current one
        r = run(
            ["bash", "-c", "rm -f bin/fu.bootstrap bin/bootstrap.o && "
             "g++ --std=c++17 -O0 -w -I include -Dfu_UNITY_FULIB -c -o bin/bootstrap.o src/cli.fu.unity.cpp && "
             "g++ -o bin/fu.bootstrap bin/bootstrap.o -ldl -pthread"],
            cwd=tree, env=env, timeout=400, merge=True)
        if not r.ok:
            raise CheckError("the bootstrap compiler does not build:\n" + r.out.decode("latin1")[-3000:])
        r = run(
            ["bash", "-c", "rm -rf build-cpp bin/fu && bin/fu.bootstrap --bin %s/bin/fu %s/src/cli.fu && [ -x bin/fu ]" % (tree, tree)],
            cwd=tree, env=env, timeout=500, merge=True)
        if not r.ok:
            raise CheckError("the compiler does not build:\n" + r.out.decode("latin1")[-3000:])
        with open(stamp, "w") as f:
            f.write(want)
        log("built the compiler in %.1f s" % (time.time() - t0))
    return tree


_homes = 0


def fu(args, tree=None, home=None, timeout=300, cwd=None, threads=0, env_more=None):
    """Runs the compiler under test."""
    tree = tree or fu_compiler()
    home = mk_fu_home(home or os.path.join(BUILD, "home"))
    env = base_env(FU_ROOT=tree + "/", HOME=home, fu_NUM_WORKER_THREADS=threads)
    if env_more:
        env.update(env_more)
    return run([os.path.join(tree, "bin/fu")] + list(args), cwd=cwd, env=env, timeout=timeout, merge=True)


def compile_fu(src_file, exe, extra=(), home=None, threads=7, timeout=600, must=True, scheme=()):
    """fu --bin exe src_file; CheckError when must and it does not build."""
    with contextlib.suppress(FileNotFoundError):
        os.remove(exe)
    r = fu(list(scheme) + ["--bin", exe, src_file] + list(extra), home=home, threads=threads, timeout=timeout)
    ok = r.ok and os.path.exists(exe)
    if not ok and must:
        raise CheckError('cannot compile %s:\n%s' % (src_file, strip_ansi(r.out)[-1500:]))
    return ok, strip_ansi(r.out)


def strip_ansi(b):
    if isinstance(b, bytes):
        b = b.decode("utf-8", "replace")
    return re.sub(r"\x1b\[[0-9;]*m", "", b)


def cxx(srcs, exe, flags=(), timeout=600, must=True, compiler="g++"):
    env = base_env()
    # the include path has to be stable for ccache
    cmd = [compiler, "-std=c++17", "-I", os.path.join(REPO, "include"), "-I", HARNESS] + list(flags)
    objs = []
    with locked("cxx." + os.path.basename(exe)):
        for s in srcs:
            o = exe + "." + os.path.basename(s) + ".o"
            r = run(cmd + ["-c", s, "-o", o], env=env, timeout=timeout, merge=True)
            if not r.ok:
                if must:
                    raise CheckError("%s does not compile:\n%s" % (s, r.out.decode("latin1")[:4000]))
                return False, r.out.decode("latin1")
            objs.append(o)
        r = run(cmd + objs + ["-o", exe, "-pthread", "-ldl"], env=env, timeout=timeout, merge=True)
    if not r.ok:
        if must:
            raise CheckError("%s does not link:\n%s" % (exe, r.out.decode("latin1")[:4000]))
        return False, r.out.decode("latin1")
    return True, ""


# --- TLC -------------------------------------------------------------------

_stats_lock = threading.Lock()
STATS = {"states": 0, "transitions": 0, "tlc_runs": 0}   # over all TLC runs of this check


class Tlc:
    def __init__(self, r):
        self.rc, self.timed_out, self.wall = r.rc, r.timed_out, r.wall
        self.out = r.out.decode("utf-8", "replace")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"The depth of the complete state graph search is (\d+)", self.out)
        self.depth = int(m[-1]) if m else 0
        self.ok = self.rc == 0 and not self.timed_out
        with _stats_lock:
            STATS["states"] += self.distinct
            STATS["transitions"] += self.generated
            STATS["tlc_runs"] += 1
        self.violated = self.rc in (10, 11, 12, 13) and not self.timed_out

    def prints(self, tag):
        """Values printed by PrintT(<<tag, ToJson(x)>>)"""
        out = []
        for m in re.finditer(r'^<<"%s", "(.*)">>$' % re.escape(tag), self.out, re.M):
            out.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        return out

    def tail(self, n=2500):
        return self.out[-n:]


def tlc(module, cfg=None, args=(), workers=None, timeout=600, env=None, heap="6g", jvm=(), cwd=None, spec_dir=SPEC, deadlock=True):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    with scratch("tlc") as meta:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"] + list(jvm) + [
            "-cp", TLA_CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
            "-workers", str(workers or JOBS), "-config", os.path.join(spec_dir, (cfg or module) + ".cfg")]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(args) + [os.path.join(spec_dir, module + ".tla")]
        e = base_env(**(env or {}))
        e["PATH"] = os.environ.get("PATH", e["PATH"])
        r = run(cmd, timeout=timeout, cwd=cwd or meta, env=e, merge=True)
    return Tlc(r)


def tlc_design(module, cfg=None, min_distinct=2, **kw):
    """An exhaustive run that has to succeed: the design itself is what is checked."""
    t = tlc(module, cfg, **kw)
    if not t.ok:
        raise CheckError("TLC on %s (%s): rc=%s%s\n%s" % (module, cfg or module, t.rc, " timeout" if t.timed_out else "", t.tail()))
    if t.distinct < min_distinct:
        raise CheckError("TLC on %s explored only %d states" % (module, t.distinct))
    return t


# --- the verdict -----------------------------------------------------------


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.bad = []
        self.known_hit = {}
        self.known = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            for k in json.load(open(p)).get("findings", []):
                if k["property"] == pid and k.get("status") == "known":
                    self.known.append(k)
        self.replay_dir = os.path.join(EVID, "replay")

    def time_left(self, budget):
        return budget - (time.time() - self.t0)

    def elapsed(self):
        return time.time() - self.t0

    def violation(self, key, what, replay):
        """key identifies the failing input/site/history; replay is stored as JSON."""
        for k in self.known:
            if key == k["key"]:
                self.known_hit.setdefault(k["key"], k)
                return
        n = len(self.bad)
        path = os.path.join(self.replay_dir, "%s-%d.json" % (self.pid, n))
        if n < 10:
            os.makedirs(self.replay_dir, exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": key, "what": what, "seed": SEED, "tier": TIER, "replay": replay}, f, indent=1, default=str)
        self.bad.append((key, what, path))
        if n < int(os.environ.get("VF_SHOW", "5")):
            log("  %s: %s" % (key, str(what)[:1500]))

    def finish(self, coverage, assumptions=(), level="model_checking"):
        """coverage: traces_validated_against_impl and samples (a list), and any other counts"""
        coverage = dict(STATS, **coverage)
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick",
            "seed": SEED, "level": level, "coverage": coverage,
            "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.bad),
        }
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.bad:
            key, what, path = self.bad[0]
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("%d violation(s); first: %s: %s" % (len(self.bad), key, str(what)[:1200]))
            sys.stdout.flush()
            return 1
        print("OK property=%s %.1f s %s" % (self.pid, time.time() - self.t0, json.dumps({k: v for k, v in coverage.items() if isinstance(v, (int, float))})))
        return 0


def main(table):
    pid = sys.argv[1]
    try:
        rc = table[pid](Check(pid))
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


# --- TLA+ values -----------------------------------------------------------


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(map(tla, v)) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(map(tla, sorted(v))) + "}"
    raise TypeError(type(v))


def write_ndjson(path, events):
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")


def parallel(fn, items, jobs=None):
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))
