"""C04: include/par against ParFor.tla, C05: include/lockfree/stack.hpp against Stack.tla, C21: arrays of include/fu that threads
share. The real code runs on threads that a
scheduler of ours switches between (harness/par/rt.hpp); ParTrace.tla,
StackTrace.tla and ArrTrace.tla judge what was recorded."""
import json
import os
import re

from vf.common import BUILD, HARNESS, SEED, CheckError, base_env, cxx, parallel, pick, rng, run, scratch, tlc, tlc_design

FLAVOURS = {"rel": ["-O2", "-DNDEBUG"], "dbg": ["-O1"]}


def driver(name, flavour):
    d = os.path.join(BUILD, "par")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s-%s" % (name, flavour))
    cxx([os.path.join(HARNESS, "par", name + ".cpp")], exe, FLAVOURS[flavour] + ["-g0", "-w", "-fno-strict-aliasing", "-I", os.path.join(HARNESS, "par")])
    return exe


def build_all():
    parallel(lambda x: driver(*x), [(n, f) for n in ("par", "stack", "arr") for f in FLAVOURS])


def broken(module, cfg):
    """a design without one of its precautions has to fail"""
    t = tlc(module, cfg, timeout=300)
    if not t.violated:
        raise CheckError("TLC on %s (%s) finds nothing wrong: %s" % (module, cfg, t.tail()))


def judge(module, path, n, tag):
    """verdicts of the specification on the recordings in path: {id: what is wrong, or ok}"""
    t = tlc(module, workers=1, env={"TRACE": path}, timeout=800, heap="4g")
    if not t.ok:
        raise CheckError("%s on %s: %s" % (module, tag, t.tail()))
    return dict(re.findall(r'^"V (\S+) (.*)"$', t.out, re.M))


def explore(ck, name, jobs, modules, tmp):
    """jobs: [(tag, flavour, env, [scenario])]; scenario: (id, numbers)"""
    total = {"runs": 0, "different": 0, "recorded": 0, "steps": 0}
    samples = []

    def one(job):
        tag, fl, env, scenarios = job
        path = os.path.join(tmp, tag + ".ndjson")
        r = run([driver(name, fl), path], env=base_env(**env), timeout=850,
                stdin="".join("%s %s\n" % (i, " ".join(map(str, v))) for i, v in scenarios).encode())
        rows = re.findall(r"^(\S+) runs (\d+) odd (\d+) crashed (\d+) different (\d+)$", r.out.decode("latin1"), re.M)
        if r.timed_out or r.rc != 0 or len(rows) != len(scenarios):
            raise CheckError("%s: rc %s, %d of %d scenarios: %s" % (tag, r.rc, len(rows), len(scenarios), r.err.decode("latin1")[-1500:]))
        recs = {}
        with open(path) as f:
            for line in f:
                d = json.loads(line)
                recs[d["id"]] = d
        bad = {}
        for m in modules:
            verdicts = judge(m, path, len(recs), tag)
            for k in recs:
                v = verdicts.get(k, "bad has no explanation as a stack" if m == "StackTrace" else None)
                if v is None:
                    raise CheckError("%s: no verdict on %s" % (m, k))
                if v != "ok":
                    bad.setdefault(k, re.sub(r"^bad( \d+)?", "", v).strip() or "wrong")
        os.remove(path)
        return rows, recs, bad, r.err.decode("latin1")[-1500:]

    for (tag, fl, env, scenarios), (rows, recs, bad, err) in zip(jobs, parallel(one, jobs)):
        for _, n, _, _, different in rows:
            total["runs"] += int(n)
            total["different"] += int(different)
        total["recorded"] += len(recs)
        total["steps"] += sum(len(d["ev"]) for d in recs.values())
        for k, why in bad.items():
            e = recs[k]["ev"]
            ck.violation(k, "%s: %s (%s build, %s)" % (k, why, {"rel": "release", "dbg": "debug"}[fl], env),
                         {"scenario": dict(scenarios)[k.split("/")[0]], "schedule": k, "flavour": fl, "env": env, "why": why, "events": e[-200:], "stderr": err})
        if recs and len(samples) < 3:
            k = min(recs, key=lambda x: len(recs[x]["ev"]))
            samples.append({"run": k, "events": [" ".join(str(v) for v in e.values()) for e in recs[k]["ev"][:40]]})
    return total, samples


# the calls of ParFor's shapes, and others: per thread, (elements, at least so many at a time, nesting, inner elements, inner least, where)
SHAPES = {
    "one": [[(3, 1, 0, 0, 0, 0)]],
    "again": [[(3, 1, 0, 0, 0, 0), (2, 1, 0, 0, 0, 0)]],
    "two": [[(2, 1, 0, 0, 0, 0)], [(2, 1, 0, 0, 0, 0)]],
    "nested": [[(3, 1, 1, 2, 1, 0)]],
    "deep": [[(2, 1, 2, 2, 1, 1)]],
    "both": [[(2, 1, 1, 2, 1, 0)], [(3, 1, 0, 0, 0, 0), (2, 1, 0, 0, 0, 0)]],
    "few": [[(0, 1, 0, 0, 0, 0), (1, 1, 0, 0, 0, 0), (5, 2, 0, 0, 0, 0), (7, 3, 0, 0, 0, 0), (4, 9, 0, 0, 0, 0)]],
    "three": [[(2, 1, 0, 0, 0, 0)], [(3, 1, 0, 0, 0, 0)], [(2, 1, 0, 0, 0, 0), (3, 1, 0, 0, 0, 0)]],
}


def scenario(seed, runs, bounded, keep, shape):
    out = [seed, runs, bounded, keep, len(shape)]
    for loops in shape:
        out.append(len(loops))
        for l in loops:
            out += l
    return out


def c04(ck):
    build_all()
    designs = [tlc_design("ParFor", c, min_distinct=100, timeout=600, workers=2) for c in ("ParForOne", "ParForTwo", "ParForAgain", "ParForNested", "ParForDeep")]
    for c in ("ParFor_nolock", "ParFor_one"):
        broken("ParFor", c)
    scale = pick(1, 12)
    jobs = []
    for w in (1, 2, 3):
        for name in SHAPES:
            heavy = name in ("two", "again", "both", "nested")
            jobs.append(("%s-%d" % (name, w), "dbg" if (w + len(name)) % 3 == 0 else "rel", {"fu_NUM_WORKER_THREADS": w},
                         [("%s-w%d" % (name, w), scenario(SEED * 1000 + w, (5000 if heavy else 2500) * scale, 1500 * scale, 40, SHAPES[name]))]))
    jobs.append(("alone", "rel", {"fu_NUM_WORKER_THREADS": 0}, [("%s-w0" % n, scenario(SEED, 60, 60, 3, SHAPES[n])) for n in SHAPES]))
    # how ranges are divided up, and what is made of the environment
    r = rng("par")
    for w in (0, 1, 2, 5, 62, 63, 64, 70):
        sc = []
        for k in range(pick(14, 60)):
            n = r.choice([r.randrange(1, 30), r.randrange(50, 140), r.choice([62, 63, 64, 65, 66, 127, 128, 129, 640]), r.randrange(1, 2000), r.randrange(1, 2000000000)])
            least = r.choice([1, 1, 2, 3, r.randrange(1, 70), max(1, n // r.randrange(1, 80))])
            sc.append(("div%d-w%d" % (k, w), scenario(SEED + k, 4, 0, 2, [[(n, least, 0, 0, 0, 0)]])))
        jobs.append(("div-%d" % w, "rel", {"fu_NUM_WORKER_THREADS": w}, sc))
    for k, v in enumerate(("", "x", "2x", "12345", "-1", "9999999999")):
        jobs.append(("env-%d" % k, "rel", {"fu_NUM_WORKER_THREADS": v}, [("env%d" % k, scenario(SEED, 20, 0, 2, SHAPES["again"]))]))
    for k in range(pick(6, 60)):
        shape = [[(r.randrange(0, 7), r.choice([1, 1, 2]), r.choice([0, 0, 1, 2]), r.randrange(0, 4), r.choice([1, 1, 2]), r.randrange(3)) for _ in range(r.choice([1, 2, 3]))]
                 for _ in range(r.choice([1, 2, 2, 3]))]
        w = r.choice([1, 2, 3, 4])
        jobs.append(("rnd-%d" % k, r.choice(["dbg", "rel"]), {"fu_NUM_WORKER_THREADS": w}, [("rnd%d-w%d" % (k, w), scenario(SEED + 77, 2500, 500, 30, shape))]))
    with scratch("par") as tmp:
        total, samples = explore(ck, "par", jobs, ["ParTrace"], tmp)
    return ck.finish({"design_states": sum(d.distinct for d in designs), "schedules": total["runs"], "different_schedules": total["different"],
                      "traces_validated_against_impl": total["recorded"], "recorded_steps_validated": total["steps"], "samples": samples},
                     ["threads interleave at atomic operations, mutexes and condition variables, whose effects are seen in one order (stale reads of atomics are not explored); "
                      "plain memory is judged by happens-before", "condition variables wake for nothing at times, and weak compare-exchanges fail for nothing at times"])


def c05(ck):
    build_all()
    designs = [tlc_design("Stack", c, min_distinct=1000, timeout=600) for c in ("StackTwo", "Stack")]
    broken("Stack", "Stack_notag")
    scale = pick(1, 15)
    jobs = []
    for k, (threads, ops, nodes) in enumerate([(2, 4, 1), (2, 5, 2), (2, 7, 2), (3, 3, 1), (3, 4, 1), (3, 4, 2), (4, 3, 1), (4, 3, 2), (2, 9, 3), (3, 5, 3), (5, 2, 1)]):
        for align in (3, 4):
            jobs.append(("s%d-%d" % (k, align), "dbg" if (k + align) % 3 == 0 else "rel", {},
                         [("s%d-a%d" % (k, align), [SEED * 1000 + align, 6000 * scale, 1500 * scale, 120, threads, ops, nodes, align])]))
    with scratch("par") as tmp:
        total, samples = explore(ck, "stack", jobs, ["ParTrace", "StackTrace"], tmp)
    return ck.finish({"design_states": sum(d.distinct for d in designs), "schedules": total["runs"], "different_schedules": total["different"],
                      "traces_validated_against_impl": total["recorded"], "recorded_steps_validated": total["steps"], "samples": samples},
                     ["a thread is not stopped within one operation while the tag goes all the way round (2^19 pushes and pops)",
                      "atomic operations are seen in one order (stale reads are not explored); plain memory is judged by happens-before"])


def c21(ck):
    build_all()
    design = tlc_design("Share", pick("Share", "ShareBig"), min_distinct=1000, timeout=800)
    broken("Share", "Share_relaxed")
    scale = pick(1, 15)
    jobs = []
    for k, (threads, ops, shared, length) in enumerate([(2, 3, 1, 1), (2, 4, 1, 3), (2, 6, 2, 2), (3, 3, 1, 2), (3, 4, 2, 3), (2, 10, 3, 4), (4, 2, 1, 2), (3, 8, 2, 2)]):
        for fl in ("rel", "dbg"):
            jobs.append(("a%d-%s" % (k, fl), fl, {}, [("a%d-%s" % (k, fl), [SEED * 1000 + k, 4000 * scale, 800 * scale, 60, threads, ops, shared, length])]))
    with scratch("par") as tmp:
        total, samples = explore(ck, "arr", jobs, ["ParTrace", "ArrTrace"], tmp)
    return ck.finish({"design_states": design.distinct, "schedules": total["runs"], "different_schedules": total["different"],
                      "traces_validated_against_impl": total["recorded"], "recorded_steps_validated": total["steps"], "samples": samples},
                     ["atomic operations are seen in one order (stale reads are not explored); plain memory is judged by happens-before",
                      "one thread uses one array (handle) at a time: handles themselves are not shared"])
