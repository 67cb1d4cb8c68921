"""C18: the build cache. The real compiler runs with a stand-in for g++ that writes down what went into each object, and with
every file operation under the control of a scheduler (harness/build/gate.c). BuildTrace.tla judges what comes out."""
import itertools
import json
import os
import random
import re
import selectors
import shutil
import signal
import socket
import subprocess
import tempfile
from concurrent.futures import ProcessPoolExecutor

from vf.common import BUILD, HARNESS, JOBS, SEED, CheckError, base_env, cxx, fu_compiler, log, pick, run, scratch, strip_ansi, tlc, tlc_design, write_ndjson

# name -> (file, contents with %d for the version)
SUB = "sub dir"
TEXTS = {
    "main": ("proj/main.fu", 'import a;\nimport sub::d;\npragma include("l.h", "<par/parfor.hpp>");\nfn main() { println("@@main=%d " ~ a::fa(1) ~ sub::d::fd(2)); return 0; }\n'),
    "a": ("proj/a.fu", 'pragma include("a.h", "k.h");\npub noinline fn fa(x: i32): string { return "@@a=%d " ~ x; }\n'),
    "d": ("proj/sub/d.fu", 'pragma include("b.h", "y/x.h");\npub noinline fn fd(x: i32): string { return "@@d=%d " ~ x; }\n'),
    "fulib": ("root/include/fu/_fulib.cpp", None),
}
HDRS = {
    "proj/a.h": '#pragma once\n/*@v%d*/\n#include "b.h"\n',
    "proj/b.h": '#pragma once\n/*@v%d*/\n#include <fu/never.h>\n',
    "proj/k.h": '#pragma once\n/*@v%d*/\n#include "l.h"\n#include "m.h"\n',      # k.h and l.h include each other
    "proj/l.h": '#pragma once\n/*@v%d*/\n#include "k.h"\n',
    "proj/m.h": '#pragma once\n/*@v%d*/\n',
    "proj/sub/b.h": '#pragma once\n/*@v%d*/\n#include "../b.h"\n',
    "proj/sub/y/x.h": '#pragma once\n/*@v%d*/\n #  include "z.h"\n',
    "proj/sub/y/z.h": '#pragma once\n/*@v%d*/\n#include\t"../../m.h" // "none.h"\n',
}
LIB = ["fu/decstr.h", "fu/decstr.cpp", "fu/vec.h", "par/parfor.hpp", "par/parfor.cpp", "lockfree/stack.hpp", "dl/hotswap.cpp"]
CFGS = {
    "plain": ([], []), "debug": (["--debug"], []), "reldeb": (["--reldeb"], []), "retail": (["--retail"], []),
    "cx1": ([], ["--cflags", "-DCX=1"]), "cx2": ([], ["--cflags", "-DCX=2"]), "lm": ([], ["--libs", "-lm"]), "lz": ([], ["--libs", "-lz"]), "cx1lm": ([], ["--cflags", "-DCX=1", "--libs", "-lm"]),
}
BROKEN = 9


class World:
    """A scratch copy of everything that goes into a build."""
    def __init__(self, top, tools, tree):
        self.top, self.tools, self.tree = top, tools, tree
        for d in ("root", "proj/sub/y", "out"):
            os.makedirs(os.path.join(top, d))
        shutil.copytree(os.path.join(tree, "include"), os.path.join(top, "root/include"))
        for d in ("src", "lib"):
            os.symlink(os.path.join(tree, d), os.path.join(top, "root", d))
        self.time = 1700000000 * 10**9
        self.base = {}
        for f in ["fu/_fulib.cpp"] + LIB:
            with open(os.path.join(top, "root/include", f)) as fh:
                self.base["root/include/" + f] = fh.read()
        self.homes = 0
        self.names = list(TEXTS) + list(HDRS) + ["root/include/" + f for f in LIB]
        self.ver = {}
        for x in self.names:
            self.edit(x, 1)
        self.fresh()

    def fresh(self):
        """an empty cache, and version 1 of everything"""
        self.homes += 1
        self.home = os.path.join(self.top, "home%d" % self.homes)
        os.makedirs(self.home)
        for x in self.names:
            if self.ver[x] != 1:
                self.edit(x, 1)

    def edit(self, x, v):
        path = TEXTS[x][0] if x in TEXTS else x
        if x in HDRS:
            s = HDRS[x] % v
        elif x in TEXTS and x != "fulib":
            s = TEXTS[x][1] % v
        elif x == "fulib":
            s = self.base[path] + "\n// @@fulib=%d\n" % v
        else:
            s = "// @v%d\n" % v + self.base[path]
        if v == BROKEN:
            s = s.replace("@@", "@broken @@") if x in TEXTS else s + "// @broken\n"
        path = os.path.join(self.top, path)
        with open(path + ".new", "w") as f:
            f.write(s)
        self.time += 1000
        os.utime(path + ".new", ns=(self.time, self.time))
        os.rename(path + ".new", path)
        self.ver[x] = v

    def spawn(self, cfg, tag, gate=None, threads=0, clock=None):
        """a configuration that ends in ! runs the program out of the cache"""
        scheme, extra = CFGS[cfg.rstrip("!")]
        out, gxx = [os.path.join(self.top, "out", tag + s) for s in ("", ".log")]
        for p in (out, gxx):
            if os.path.lexists(p):
                os.unlink(p)
        env = base_env(FU_ROOT=self.top + "/root/", HOME=self.home, GXX_LOG=gxx, fu_NUM_WORKER_THREADS=threads)
        env["PATH"] = os.path.join(self.tools, "bin") + ":" + env["PATH"]
        if gate:
            env.update(LD_PRELOAD=os.path.join(self.tools, "gate.so"), GATE_ROOT=self.top, GATE_SOCK=gate, GATE_ID=tag)
            if clock is not None:
                env["GATE_CLOCK"] = str(clock)
        exe = os.path.join(self.tree, "bin/fu")
        how = ["-r"] if cfg.endswith("!") else ["--bin", out]
        return subprocess.Popen([exe] + scheme + ["--notest"] + how + [os.path.join(self.top, "proj/main.fu")] + extra, cwd=self.top, env=env,
                                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)

    def outcome(self, tag, said):
        """what lies where the executable should be or was run, and what was compiled"""
        out, gxx = [os.path.join(self.top, "out", tag + s) for s in ("", ".log")]
        r = {"compiled": []}
        if os.path.exists(gxx):
            with open(gxx) as f:
                r["compiled"] = f.read().split()
        txt = None
        if os.path.lexists(out):
            with open(out) as f:
                txt = f.read()
            os.unlink(out)
        elif "#!/bin/cat\n" in said:
            txt = said[said.index("#!/bin/cat\n"):]
        if txt is not None:
            units = {}
            try:
                d, _ = json.JSONDecoder().raw_decode(txt[txt.index("{"):])
                for o in d["objs"]:
                    (u, v), = o["marks"].items()
                    hdrs = {os.path.relpath(h, self.top): x for h, x in o["hdrs"].items()}
                    units[u] = {"text": v, "flags": " ".join(o["flags"]), "hdrs": {h: x for h, x in hdrs.items() if h in self.ver}}
                r["exe"] = {"units": units, "link": " ".join(d["link"])}
            except (ValueError, KeyError):
                r["exe"] = {"units": {}, "link": "?" + txt[:200]}
        return r

    def build(self, cfg, tag="b", threads=0):
        p = self.spawn(cfg, tag, threads=threads)
        try:
            out = p.communicate(timeout=60)[0]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return dict(self.outcome(tag, ""), rc=124, said="timeout")
        return dict(self.outcome(tag, out.decode("latin1")), rc=p.returncode & 255, said=strip_ansi(out)[-600:])


class Scheduler:
    """Runs builders; each file operation waits here until it is its turn."""
    def __init__(self, world):
        self.w = world
        self.path = os.path.join(world.top, "gate.sock")
        self.path = os.path.join(tempfile.gettempdir(), "gate.%d.%d" % (os.getpid(), random.getrandbits(40)))
        self.srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.srv.bind(self.path)
        self.srv.listen(16)
        self.sel = selectors.DefaultSelector()
        self.sel.register(self.srv, selectors.EVENT_READ, "accept")
        self.procs, self.wait, self.conns, self.said = {}, {}, {}, {}

    def close(self):
        for p in self.procs.values():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            p.stdout.close()
        for c in self.conns:
            c.close()
        self.sel.close()
        self.srv.close()
        os.unlink(self.path)

    def start(self, tag, cfg, clock=None):
        p = self.w.spawn(cfg, tag, gate=self.path, clock=clock)
        self.procs[tag] = p
        self.said[tag] = b""
        self.sel.register(p.stdout, selectors.EVENT_READ, ("out", tag))

    def settle(self):
        """until every running builder waits for its turn or is gone"""
        while True:
            # every live builder has exactly one operation pending: its own or its compiler's
            if all(any(t == tag for t, _, _, _ in self.wait.values()) for tag in self.procs):
                return
            ready = self.sel.select(timeout=30)
            if not ready:
                raise CheckError("the builders neither proceed nor wait: %s" % [x for x in self.wait.values()])
            for key, _ in ready:
                if key.data == "accept":
                    c, _ = self.srv.accept()
                    self.conns[c] = b""
                    self.sel.register(c, selectors.EVENT_READ, "conn")
                elif key.data == "conn":
                    c = key.fileobj
                    try:
                        data = c.recv(8192)
                    except ConnectionResetError:
                        data = b""
                    if not data:
                        self.sel.unregister(c)
                        c.close()
                        del self.conns[c]
                        self.wait.pop(c, None)
                    else:
                        self.conns[c] += data
                        if self.conns[c].endswith(b"\n"):
                            tag, pid, prog, op, path = self.conns[c].decode().rstrip("\n").split(" ", 4)
                            self.conns[c] = b""
                            self.wait[c] = (tag, prog, op, path)
                else:
                    tag = key.data[1]
                    data = os.read(key.fileobj.fileno(), 65536)
                    self.said[tag] += data
                    if not data:
                        self.sel.unregister(key.fileobj)
                        p = self.procs.pop(tag)
                        p.wait()
                        p.stdout.close()
                        self.gone(tag, p.returncode)

    def gone(self, tag, rc):
        raise NotImplementedError

    def go(self, c, how="g"):
        tag = self.wait.pop(c)
        c.send(how.encode())
        return tag


def setup(top):
    tools = os.path.join(BUILD, "buildtools")
    os.makedirs(os.path.join(tools, "bin"), exist_ok=True)
    r = run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", os.path.join(tools, "gate.so.%d" % os.getpid()), os.path.join(HARNESS, "build/gate.c"), "-ldl"], timeout=60, merge=True)
    if not r.ok:
        raise CheckError("gate.c: " + r.out.decode())
    os.rename(os.path.join(tools, "gate.so.%d" % os.getpid()), os.path.join(tools, "gate.so"))
    r = run(["g++", "-O1", "-w", "-o", os.path.join(tools, "bin/g++.%d" % os.getpid()), os.path.join(HARNESS, "build/fakegxx.cpp")], timeout=60, merge=True)
    if not r.ok:
        raise CheckError("fakegxx.cpp: " + r.out.decode())
    os.rename(os.path.join(tools, "bin/g++.%d" % os.getpid()), os.path.join(tools, "bin/g++"))
    return tools


_world = None


def world():
    global _world
    if _world is None:
        _world = World(tempfile.mkdtemp(prefix="w", dir=_top), _tools, _tree)
    _world.fresh()
    return _world


def _init(top, tools, tree):
    global _top, _tools, _tree, _world
    _world = None
    _top, _tools, _tree = top, tools, tree


# --- histories -------------------------------------------------------------


def sequential(job):
    """edits and configurations between builds; each step is ('edit', x) | ('break', x) | ('cfg', name)"""
    hid, steps, threads = job
    w = world()
    cfg, ev = "plain", []
    if steps and steps[0] == ("start", "run"):
        cfg, steps = "plain!", steps[1:]

    def build():
        ev.append({"e": "start", "b": "b", "cfg": cfg.rstrip("!")})
        ev.append(dict(w.build(cfg, threads=threads), e="end", b="b"))

    build()
    for kind, x in steps:
        if kind == "cfg":
            cfg = x
        else:
            v = BROKEN if kind == "break" and w.ver[x] != BROKEN else 1 if w.ver[x] != 1 else 2
            w.edit(x, v)
            ev.append({"e": "edit", "x": x, "v": v})
        build()
    shutil.rmtree(w.home)
    return {"id": hid, "how": "steps", "steps": steps, "events": ev}


def gated(job):
    """a scripted or random schedule of builders, edits, crashes and faults, then a build on its own"""
    hid, spec = job
    rng = random.Random(spec["seed"])
    w = world()
    ev, ops = [], []
    for x in spec.get("warm", []):
        ev.append({"e": "start", "b": "warm", "cfg": x.rstrip("!")})
        ev.append(dict(w.build(x, "warm"), e="end", b="warm"))
    for x in spec.get("before", []):
        w.edit(x, 2)
        ev.append({"e": "edit", "x": x, "v": 2})

    killed = set()

    class S(Scheduler):
        def gone(self, tag, rc):
            o = self.w.outcome(tag, self.said[tag].decode("latin1"))
            if tag in killed:
                ev.append(dict(o, e="kill", b=tag))
            else:
                ev.append(dict(o, e="end", b=tag, rc=rc & 255, said=strip_ansi(self.said[tag])[-400:]))

    s = S(w)
    try:
        todo = list(spec["builders"])     # [(tag, cfg)]
        edits, count = spec.get("edits", 0), 0
        while todo or s.procs:
            if todo and (not s.procs or rng.random() < spec.get("eager", 1)):
                tag, cfg = todo.pop(0)
                ev.append({"e": "start", "b": tag, "cfg": cfg.rstrip("!")})
                s.start(tag, cfg, spec.get("clock"))
            s.settle()
            if not s.wait:
                continue
            if edits and rng.random() < spec["edit_rate"]:
                edits -= 1
                x = rng.choice(spec.get("edit_what") or w.names)
                v = 3 - w.ver[x]
                w.edit(x, v)
                ev.append({"e": "edit", "x": x, "v": v})
            c = rng.choice(sorted(s.wait, key=lambda c: s.wait[c]))
            tag, prog, op, path = s.wait[c]
            count += 1
            at = spec.get("at")           # (k, what)
            ops.append("%s %s %s %s" % (tag, prog, op, os.path.relpath(path, w.top)))
            if at and at[0] == count or rng.random() < spec.get("fault_rate", 0):
                what = at[1] if at else rng.choice(["kill", "kill", "fault", "orphan"])
                if what == "edit":
                    x = rng.choice(spec["edit_what"])
                    v = 3 - w.ver[x]
                    w.edit(x, v)
                    ev.append({"e": "edit", "x": x, "v": v})
                    s.go(c)
                elif what == "fault":
                    ev.append({"e": "fault", "b": tag})
                    s.go(c, "e")
                elif what == "orphan" and prog != "fu":     # the builder dies, its compiler lives on
                    killed.add(tag)
                    s.procs[tag].kill()
                    s.go(c)
                elif prog == "fu":
                    killed.add(tag)
                    s.go(c, "k")
                else:                                       # the compiler dies
                    ev.append({"e": "fault", "b": tag})
                    s.go(c, "k")
            else:
                s.go(c)
    finally:
        s.close()
    for cfg in spec.get("after", ["plain", "back", "plain"]):
        if cfg == "back":               # everything as it was in the beginning
            for x in w.names:
                if w.ver[x] != 1:
                    w.edit(x, 1)
                    ev.append({"e": "edit", "x": x, "v": 1})
            continue
        ev.append({"e": "start", "b": "last", "cfg": cfg.rstrip("!")})
        ev.append(dict(w.build(cfg, "last"), e="end", b="last"))
    shutil.rmtree(w.home)
    return {"id": hid, "how": "gated", "spec": spec, "ops": ops, "count": count, "events": ev}


def work(job):
    try:
        return sequential(job) if isinstance(job[1], (list, tuple)) else gated(job)
    except CheckError as e:
        return {"id": job[0], "error": str(e)}


# --- the check -------------------------------------------------------------


def plan(total_random):
    """the jobs; crash points are enumerated after a first run has counted them"""
    names = list(TEXTS) + list(HDRS) + ["root/include/" + f for f in LIB]
    steps = [("edit", x) for x in names] + [("break", x) for x in ("a", "main", "proj/b.h", "root/include/fu/decstr.cpp")] + [("cfg", c) for c in CFGS]
    pairs = [list(p) for p in itertools.product(steps, repeat=2)]
    rng = random.Random(SEED)
    ran = lambda h: [("start", "run")] + [(k, x + "!") if k == "cfg" else (k, x) for k, x in h]
    pairs = [ran(h) if rng.random() < 0.35 else h for h in pairs] + [ran([("cfg", a), ("cfg", b)]) for a in CFGS for b in CFGS]
    longer = [[rng.choice(steps + [("cfg", c + "!") for c in CFGS]) for _ in range(rng.randint(3, 7))] for _ in range(total_random)]
    return pairs, longer


def c18(ck):
    # (A) the protocol
    tlc_design("BuildCache", "BuildCacheOne" if pick(0, 1) else "BuildCacheQuick", min_distinct=1000)
    tlc_design("BuildCache", min_distinct=1000)
    for v in ("nohash", "noflags", "nocross", "statlate"):
        t = tlc("BuildCache", "BuildCache_" + v, timeout=300)
        if not t.violated:
            raise CheckError("BuildCache: the variant %s should fail" % v)

    tree = fu_compiler()
    hist, clean, incl = [], {}, {}
    with scratch("build") as top:
        tools = setup(top)
        _init(top, tools, tree)
        w = world()
        for c in CFGS:
            r = w.build(c)
            if r["rc"] or "exe" not in r:
                ck.violation("clean/" + c, "a build from nothing fails: " + r["said"], r)
                return ck.finish({"traces_validated_against_impl": 0, "samples": []})
            clean[c] = {"units": {u: o["flags"] for u, o in r["exe"]["units"].items()}, "link": r["exe"]["link"]}
            incl = {u: sorted(o["hdrs"]) for u, o in r["exe"]["units"].items()}
            w.fresh()
        if sorted(incl) != sorted(TEXTS) or "proj/m.h" not in incl["d"] or "proj/m.h" not in incl["main"] or "root/include/fu/decstr.cpp" not in incl["fulib"]:
            raise CheckError("the headers of the scratch project are not what they should be: %s" % incl)
        if len({json.dumps(v, sort_keys=True) for v in clean.values()}) != len(CFGS):
            raise CheckError("the configurations do not differ: %s" % clean)
        pairs, longer = plan(pick(300, 6000))
        jobs = [[("seq/%d" % i), s, 3 if i % 4 == 0 else 0] for i, s in enumerate(pairs + longer)]
        with ProcessPoolExecutor(JOBS, initializer=_init, initargs=(top, tools, tree)) as ex:
            hist += ex.map(work, jobs, chunksize=8)
            # every operation of a build is a point to crash at, to fail at, to edit at
            jobs = []
            bases = [{"warm": ["plain!"], "before": ["proj/m.h"], "how": "plain!"}, {"warm": [], "before": []}, {"warm": ["plain"], "before": ["proj/m.h", "a"]}, {"warm": ["plain"], "before": ["root/include/fu/decstr.cpp"]}]
            for nb, base in enumerate(bases):
                base = dict(base, builders=[("p", base.get("how", "plain"))], seed=SEED)
                first = work(("ops/%d" % nb, base))
                hist.append(first)
                if "error" in first:
                    continue
                for k in range(1, first["count"] + 1):
                    if nb and pick(1, 0) and (k + SEED) % 2:
                        continue
                    for what in ("kill", "orphan", "fault", "edit"):
                        prog = first["ops"][k - 1].split()[1]
                        if what == "orphan" and prog == "fu":
                            continue
                        for x in ([None] if what != "edit" else ["proj/m.h", "root/include/fu/decstr.cpp"]):
                            jobs.append(("%s/%d/%d/%s" % (what, nb, k, x), dict(base, at=(k, what), edit_what=[x] if x else None, seed=SEED + k)))
            rng = random.Random(SEED + 5)
            for i in range(pick(400, 10000)):
                n = rng.choice([2, 2, 3])
                jobs.append(("race/%d" % i, {
                    "warm": rng.sample(list(CFGS) + ["plain!", "lm!"], rng.choice([0, 0, 1, 2])), "before": rng.sample(w.names, rng.choice([0, 1, 2])), "seed": rng.getrandbits(32),
                    "builders": [("p%d" % j, rng.choice(["plain", "plain", "cx1", "cx2", "debug", "plain!", "plain!", "lm!"])) for j in range(n)], "eager": rng.choice([1, 0.1, 0.03]),
                    "edits": rng.choice([0, 0, 1, 3]), "edit_rate": 0.02, "fault_rate": rng.choice([0, 0, 0.01]), "clock": rng.choice([None, 7]),
                    "after": ["plain!", "cx1", "back", "plain"]}))
            hist += ex.map(work, jobs, chunksize=4)
        errors = [h for h in hist if "error" in h]
        if errors:
            raise CheckError("%d histories did not run: %s" % (len(errors), errors[0]["error"]))
        # (C) the verdict
        path = os.path.join(top, "histories.ndjson")
        by = {h["id"]: h for h in hist}
        seen = 0
        write_ndjson(path, [{"id": h["id"], "incl": incl, "clean": clean, "events": [{k: v for k, v in e.items() if k != "said"} for e in h["events"]]} for h in hist])
        t = tlc("BuildTrace", env={"HISTORIES": path}, timeout=600, workers=1)
        if not t.ok:
            raise CheckError("BuildTrace: rc %s %s" % (t.rc, t.tail()))
        for m in re.finditer(r'^"V (\S+) (ok|bad)(?: (\d+) (.*))?"$', t.out, re.M):
            seen += 1
            if m.group(2) == "bad":
                h = by[m.group(1)]
                at = int(m.group(3))
                ck.violation(m.group(1), "%s: %s %s" % (m.group(4), h.get("steps") or h["spec"], h["events"][at - 1].get("said", "")[-300:]), dict(h, at=at, events=h["events"][:at]))
        if seen != len(hist):
            raise CheckError("BuildTrace judged %d of %d histories" % (seen, len(hist)))
    builds = sum(1 for h in hist for e in h["events"] if e["e"] == "start")
    return ck.finish({
        "traces_validated_against_impl": len(hist), "builds": builds, "crash_fault_and_edit_points": sum(1 for h in hist if h["id"].split("/")[0] in ("kill", "orphan", "fault", "edit")),
        "races": sum(1 for h in hist if h["id"].startswith("race/")),
        "samples": [{"id": h["id"], "events": [{k: v for k, v in e.items() if k in ("e", "b", "x", "v", "rc", "cfg", "compiled")} for e in h["events"]][:12]} for h in (hist[1], hist[-1])]},
        ["a file that is edited gets another modification time", "g++ is a stand-in that records what it is given",
         "headers the compiler finds outside the project and its own include directory do not change", "no power loss (nothing is synced)"])
