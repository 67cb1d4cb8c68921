"""Compiles and runs generated programs, and has TLC judge what they wrote."""
import collections
import json
import os
import re
import time

from vf.common import BUILD, VERIF, CheckError, base_env, compile_fu, fu, fu_compiler, parallel, rng, run, strip_ansi, tlc, write_ndjson, JOBS, log
from vf.lang import ast, gen

RUNNER = """
noinline fn out(pid: i32, implicit ref log: i32[], end: string) {
    mut s = "LOG " ~ pid ~ ":";
    for (mut i = 0; i < log.len; i++) s ~= " " ~ log[i];
    println(s ~ " " ~ end);
    log.clear();
}
"""


# what is logged goes straight to the standard output: I/O is all that tells the order
PUT = """
noinline fn put(o: i32[]) {
    mut s = "T";
    for (mut i = 0; i < o.len; i++) s ~= " " ~ o[i];
    println(s);
}
"""


def printed(src):
    """the program without its log: no reference to a common log is passed along any more"""
    src = re.sub(r"implicit (?:lax )?ref log: i32\[\](?:, )?", "", src)
    src = re.sub(r"(fn tr\([^)]*\)) \{ log ~= id; fl\(log, v\);", r"\1 { mut o: i32[]; o ~= id; fl(o, v); put(o);", src)
    return src.replace("fl(log, e);", "{ mut o: i32[]; fl(o, e); put(o); }").replace("    implicit mut log: i32[];\n", "")


def whole(programs, flavour="plain"):
    src = _whole(programs, RUNNER)
    return src if flavour != "printed" else printed(_whole(programs, PUT + 'noinline fn out(pid: i32, end: string) { println("LOG " ~ pid ~ ": " ~ end); }'))


def _whole(programs, runner):
    src = [ast.prelude(), gen.HELPER_SRC, gen.REFS_SRC, runner]
    calls = []
    for p in programs:
        src.append(p.source())
        calls.append("noinline fn run%d(implicit ref log: i32[]) { try { p%d_main(); out(%d, \"END\"); } catch (e) { fl(log, e); out(%d, \"THROW\"); } }" % (p.pid, p.pid, p.pid, p.pid))
    src += calls
    src.append("fn main() {\n    implicit mut log: i32[];\n" + "\n".join("    run%d();" % p.pid for p in programs) + "\n    return 0;\n}\n")
    return "\n".join(src)


class Result:
    """kind: ok, skip (outside the model), rejected (by the compiler), cxx (accepted, but the C++ does not compile),
    crash (the program, or the compiler), bad, dangling, uncaught, running"""

    def __init__(self, prog, kind, what="", real=None, model=None, flavour="plain"):
        self.flavour = flavour
        self.prog, self.kind, self.what, self.real, self.model = prog, kind, what, real, model

    def __repr__(self):
        return "%d %s %s" % (self.prog.pid, self.kind, self.what[:300])

    def replay(self):
        return {"source": whole([self.prog], self.flavour), "verdict": self.kind, "what": self.what, "program wrote": self.real, "FuMachine wrote": self.model}


def message(out):
    """the compiler's complaint"""
    i = out.find("ERROR")
    j = out.find("\n\t", i)
    return re.sub(r"\s+", " ", out[j if j > 0 else i:]).strip()[:400]


def translate(prog, tmp, flavour="plain"):
    """None when the compiler accepts it"""
    path = os.path.join(tmp, "q%d.fu" % prog.pid)
    with open(path, "w") as f:
        f.write(whole([prog], flavour))
    # the output directory mirrors the path of the source below their common parent
    cpp = os.path.join(tmp, "cpp")
    for top in (os.path.relpath(tmp, "/"), os.path.relpath(tmp, VERIF), os.path.relpath(tmp, BUILD)):
        os.makedirs(os.path.join(cpp, top), exist_ok=True)
    r = fu(["--cpp", cpp, path], timeout=60)
    out = strip_ansi(r.out)
    if r.rc == 0 and "ERROR" not in out:
        return None
    if r.rc < 0 or r.timed_out:
        return Result(prog, "crash", "the compiler: rc %s %s" % (r.rc, out[-300:]))
    return Result(prog, "rejected", message(out))


FLAGS = {"plain": ["--cflags", "-w"], "printed": ["--cflags", "-w"], "asan": ["--cflags", "-w -fsanitize=address", "--libs", "-fsanitize=address"]}


LONG = 1500


def execute(progs, tmp, tag, flavour, scheme, results):
    """compiles the programs as one file and runs them; returns [(prog, log, end)]"""
    progs = list(progs)
    while progs:
        path = os.path.join(tmp, "b%s.fu" % tag)
        exe = os.path.join(tmp, "b%s.bin" % tag)
        with open(path, "w") as f:
            f.write(whole(progs, flavour))
        ok, out = compile_fu(path, exe, extra=FLAGS[flavour], scheme=scheme, must=False, threads=1)
        if ok:
            break
        guilty = []
        for line in out.splitlines():
            m = re.search(r"In function .*?\bp(\d+)_", line) or re.search(r"error: .*?\bp(\d+)_(?:f|main|loc)", line)
            if m and int(m.group(1)) not in guilty:
                guilty.append(int(m.group(1)))
        errs = [l for l in out.splitlines() if "error:" in l]
        if not guilty and len(progs) > 1:   # halve until it is one program
            half = len(progs) // 2
            return execute(progs[:half], tmp, tag + "a", flavour, scheme, results) + execute(progs[half:], tmp, tag + "b", flavour, scheme, results)
        for p in list(progs):
            if p.pid in guilty or not guilty:
                progs.remove(p)
                mine = [l for l in errs if "p%d_" % p.pid in l] or errs
                results.append(Result(p, "cxx", re.sub(r"^\S*?:\d+:\d+: ", "", mine[0]) if mine else message(out)))
    todo, done = list(progs), []
    while todo:
        # a line at a time, so that a crash can be attributed
        r = run(["stdbuf", "-oL", exe], timeout=60, mem_gb=None if flavour == "asan" else 4, env=base_env(ASAN_OPTIONS="detect_leaks=1:exitcode=77:verify_asan_link_order=0"))
        logs, io = {}, []
        for line in r.out.decode("latin1").splitlines():
            m = re.match(r"LOG (\d+):(.*) (\S+)$", line)
            if m:
                logs[int(m.group(1))] = (io + list(map(int, m.group(2).split())), m.group(3))
                io = []
            elif flavour == "printed" and re.match(r"T( -?\d+)*$", line):
                io += map(int, line.split()[1:])
        here = [p for p in todo if p.pid in logs]
        for p in here:
            if len(logs[p.pid][0]) > LONG:   # beyond what FuMachine is asked to compute
                results.append(Result(p, "skip", "long"))
            else:
                done.append((p,) + logs[p.pid])
        rest = [p for p in todo if p.pid not in logs]
        if not rest:
            if r.rc != 0:
                results.append(Result(todo[-1], "crash", "at exit, of %d programs: rc %s %s" % (len(todo), r.rc, r.err.decode("latin1")[:1500])))
            break
        # FuMachine has the last word: the program may be doing what the model leaves undefined
        done.append((rest[0], [], "CRASH rc %s %s" % ("timeout" if r.timed_out else r.rc, r.err.decode("latin1")[:1500])))
        todo = rest[1:]
        if todo:
            with open(path, "w") as f:
                f.write(whole(todo, flavour))
            compile_fu(path, exe, extra=FLAGS[flavour], scheme=scheme, threads=1)
    return done


def judge(runs, tmp, tag, results, workers=1):
    """TLC says which of the recorded logs FuMachine can write"""
    path = os.path.join(tmp, "m%s.ndjson" % tag)
    write_ndjson(path, [p.model(lg, end) for p, lg, end in runs])
    t = tlc("FuMachine", env={"PROGS": path}, timeout=200 if len(runs) > 1 else 60, workers=workers, heap="3g")
    if not t.ok:
        # a program that is beyond TLC (its integers, or the memory) is left out; a share of such programs is an error
        i = t.out.find("Error:")
        log("FuMachine on %d programs: rc %s %s" % (len(runs), t.rc, t.out[i:i + 200]))
        if len(runs) == 1:
            results.append(Result(runs[0][0], "skip", "model: rc %s %s" % (t.rc, t.out[i:i + 300])))
            return
        half = len(runs) // 2
        judge(runs[:half], tmp, tag + "x", results, workers)
        judge(runs[half:], tmp, tag + "y", results, workers)
        return
    seen = set()
    for m in re.finditer(r'^"V (\d+) (\w+) (.*)"$', t.out, re.M):
        p, lg, end = runs[int(m.group(1)) - 1]
        seen.add(p.pid)
        crash = end.startswith("CRASH") and m.group(2) not in ("skip", "running")
        results.append(Result(p, "crash" if crash else m.group(2), what=end if crash else "", real=[lg, end], model=m.group(3)))
    if len(seen) != len(runs):
        raise CheckError("FuMachine judged %d of %d programs" % (len(seen), len(runs)))


def batch(profile, first, count, seed, tmp, flavour="plain", scheme=()):
    results, good = [], []
    tag = "%s-%s-%d" % (profile, flavour, first)
    for i in range(first, first + count):
        p = gen.generate(i, rng(seed, profile, i), profile)
        bad = translate(p, tmp, flavour)
        if bad:
            results.append(bad)
        else:
            good.append(p)
    t0 = time.time()
    runs = execute(good, tmp, tag, flavour, scheme, results) if good else []
    t1 = time.time()
    if os.environ.get("VF_TIMES"):
        log(tag, len(runs), "%.1f" % (t1 - t0), max([len(r[1]) for r in runs] or [0]))
    if runs:
        judge(runs, tmp, tag, results)
    for r in results:
        r.flavour = flavour
    if os.environ.get("VF_TIMES"):
        log(tag, "judged %.1f" % (time.time() - t1))
    return results


def campaign(profile, total, seed, tmp, flavour="plain", scheme=(), size=50):
    """total random programs, in batches over all cores"""
    fu_compiler()
    jobs = [(f, min(size, total - f)) for f in range(0, total, size)]
    out = []
    for rs in parallel(lambda j: batch(profile, j[0], j[1], seed, tmp, flavour, scheme), jobs):
        out += rs
    return out


def tally(results):
    return collections.Counter(r.kind for r in results)
