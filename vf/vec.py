"""C01-C03: the arrays of include/fu/vec.h against Vec.tla and Own.tla."""
import json
import os
import re

from vf.common import (BUILD, HARNESS, REPO, SEED, CheckError, base_env, cxx, parallel, pick, run, scratch, tlc, tlc_design, log)

TYPES = ["byte", "i16", "i32", "u64", "struct12", "struct24", "nocopy_trivial", "object", "nocopy_object", "nested"]
RANGE_OPS = ("viewset", "viewassign", "rset", "rpush", "rpush2", "runshift", "rinsert", "rresize", "rgrow", "rshrink", "rclear",
             "rpop", "rsplice", "rsplicecopy", "rsplicemove", "rappend", "rappendmove", "rassign", "rassignrng", "rassignmove",
             "rswap", "rrswap", "rmove", "rread", "slice_mv", "slice_cp", "catview", "splicesub", "appendsub", "appendrng", "shift_pop",
             "swapthrough", "raddto", "raddone", "vread", "vmread", "wassign", "catv", "catmv", "catvm", "catvv", "catvone", "onecatv",
             "addv", "nilread", "bytes")

# operations that are about whole arrays as well
BOTH_OPS = ("slice_mv", "slice_cp", "catview", "splicesub", "appendsub", "appendrng", "shift_pop", "swapthrough", "wassign", "catv", "catmv",
            "catvm", "catvv", "catvone", "onecatv", "addv")

SAMPLES = []

FLAVOURS = {
    "asan": ["-O1", "-g0", "-fsanitize=address", "-w"],
    "rel": ["-O3", "-DNDEBUG", "-fno-strict-aliasing", "-w"],
}


def driver(elem, flavour):
    d = os.path.join(BUILD, "vec")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "driver-%s-%s" % (TYPES[elem], flavour))
    cxx([os.path.join(HARNESS, "vec/driver.cpp"), REPO + "/include/fu/mem/arc.cpp", REPO + "/include/fu/mem/memswap.cpp"], exe,
        FLAVOURS[flavour] + ["-DELEM=%d" % elem, "-Wl,--wrap=malloc", "-Wl,--wrap=free"])
    return exe


def build_all(flavours=("asan", "rel")):
    parallel(lambda x: driver(*x), [(e, f) for f in flavours for e in range(10)])


def cases_of(cfg, tmp):
    path = os.path.join(tmp, cfg + ".ndjson")
    t = tlc("VecCases", cfg, workers=1, env={"CASES": path}, timeout=600)
    if not t.ok or not os.path.exists(path):
        raise CheckError("VecCases %s: %s" % (cfg, t.tail()))
    out = []
    for line in open(path):
        c = json.loads(line)
        out.append((c[0], " ".join(map(str, c[:9])) + "|" + "|".join(" ".join(map(str, v)) for v in c[9:])))
    # TLC's order of a set is not part of what we rely on
    out.sort()
    return out


def replay_cases(ck, want_range, cfgs, jobs):
    """Replays every transition of the specification; returns (cases, executions)."""
    total = evals = 0
    with scratch("vec") as tmp:
        for cfg, stride, maxlen in cfgs:
            cases = [l for op, l in cases_of(cfg, tmp) if (op in RANGE_OPS) == want_range or op in BOTH_OPS]
            if len(cases) < 100:
                raise CheckError("only %d cases" % len(cases))
            total += len(cases)
            data = ("\n".join(cases) + "\n").encode()

            def one(job):
                elem, fl = job
                r = run([driver(elem, fl), "cases", str(stride)], stdin=data, timeout=700, env=base_env(ASAN_OPTIONS="detect_leaks=1"))
                return elem, fl, r

            for elem, fl, r in parallel(one, jobs):
                out = r.out.decode("latin1")
                for line in out.splitlines():
                    if line.startswith("BAD "):
                        key = line.split()[1]
                        ck.violation(key, line[4:], {"driver": TYPES[elem], "flavour": fl, "case": line})
                m = re.search(r"^EVALS (\d+) BAD (\d+)$", out, re.M)
                if r.rc != 0 or not m:
                    err = r.err.decode("latin1")
                    ck.violation("%s/crash" % TYPES[elem], "the arrays crash while executing the specification's transitions: " + err[:800],
                                 {"driver": TYPES[elem], "flavour": fl, "rc": r.rc, "timeout": r.timed_out, "stderr": err[:6000], "stdout": out[-500:]})
                else:
                    evals += int(m.group(1))
    return total, evals


def histories(ck, spec, modes, seeds, steps, elems, tmp, flavour="asan"):
    """Random histories of the real arrays, each validated by TLC; returns steps validated."""

    def one(job):
        elem, mode, seed = job
        path = os.path.join(tmp, "%s-%s-%d.ndjson" % (TYPES[elem], mode, seed))
        r = run([driver(elem, flavour), "random", "x", str(seed), str(steps), mode, path], timeout=300, env=base_env(ASAN_OPTIONS="detect_leaks=1"))
        lines = open(path).read().splitlines() if os.path.exists(path) else []
        crash = r.rc != 0 or r.timed_out
        if crash and lines:
            try:
                json.loads(lines[-1])
            except ValueError:
                lines.pop()
            with open(path, "w") as f:
                f.write("\n".join(lines) + "\n")
        if crash:
            err = r.err.decode("latin1")
            ck.violation("%s/%s/crash" % (TYPES[elem], mode), "the arrays crash in a random history: " + err[:600],
                         {"driver": TYPES[elem], "mode": mode, "seed": seed, "steps": steps, "rc": r.rc, "timeout": r.timed_out,
                          "stderr": err[:5000], "last": lines[-3:]})
            return 0
        if len(lines) < steps:
            raise CheckError("short trace from %s: %d" % (TYPES[elem], len(lines)))
        t = tlc(spec, workers=1, env={"TRACE": path, "NESTED": "1" if TYPES[elem] == "nested" else "0"}, timeout=400, heap="3g")
        m = re.search(r'<<"REJECTED", (\d+)>>', t.out)
        if m:
            n = int(m.group(1))
            bad = json.loads(lines[n - 1])
            before = json.loads(lines[n - 2]) if n > 1 else None
            ck.violation("%s/%s" % (TYPES[elem], bad["op"]),
                         "step %d of a recorded history is not a step of %s.tla: %s; before it %s" % (n, spec, lines[n - 1][:500], str(before and before["vals"])[:300]),
                         {"driver": TYPES[elem], "mode": mode, "seed": seed, "step": n, "operation": bad, "before": before})
            return n - 1
        if not t.ok:
            raise CheckError("%s on %s: rc %s\n%s" % (spec, path, t.rc, t.tail()))
        if len(SAMPLES) < 3:
            SAMPLES.append("%s: %s" % (TYPES[elem], lines[len(lines) // 2][:400]))
        os.remove(path)
        return len(lines)

    jobs = [(e, m, s) for s in seeds for m in modes for e in elems]
    return sum(parallel(one, jobs)), len(jobs)


ALL = list(range(10))


def c01(ck):
    d = tlc_design("VecRep", pick("VecRepSmall", "VecRep"), min_distinct=1000, timeout=1800)
    jobs = [(e, "asan") for e in ALL] + [(e, "rel") for e in ALL]
    build_all()
    total, evals = replay_cases(ck, False, [("VecCases", pick(2, 1), 4), ("VecCasesLong", pick(5, 1), 17)], jobs)
    with scratch("vec") as tmp:
        steps, n = histories(ck, "VecTrace", ["whole"], [SEED * 1000 + k for k in range(pick(1, 12))], pick(6000, 20000), ALL, tmp)
    return ck.finish({
        "design_states": d.distinct, "spec_transitions_replayed": total, "executions": evals,
        "traces_validated_against_impl": n, "samples": SAMPLES[:3], "recorded_steps_validated": steps, "element_types": len(ALL),
        "rep_pairs_per_transition": "49 (7 ways to build each array)"},
        ["single-threaded use of one array", "element types: 4 integers, 2 plain structs, 2 move-only, 1 owning, nested arrays"])


def c02(ck):
    d = tlc_design("VecRep", "VecRepSmall", min_distinct=1000, timeout=900)
    build_all(("asan",))
    with scratch("vec") as tmp:
        seeds = [SEED * 1000 + 500 + k for k in range(pick(2, 14))]
        steps, n = histories(ck, "Own", ["whole", "range"], seeds, pick(5000, 20000), ALL, tmp)
    return ck.finish({
        "design_states": d.distinct, "traces_validated_against_impl": n, "samples": SAMPLES[:3], "recorded_steps_validated": steps},
        ["every malloc/free of the process and every element construction/destruction is recorded", "AddressSanitizer and its leak check are on as well"])


def c03(ck):
    build_all()
    jobs = [(e, "asan") for e in ALL] + [(e, "rel") for e in ALL]
    total, evals = replay_cases(ck, True, [("VecCases", pick(4, 1), 4), ("VecCasesLong", pick(9, 3), 17)], jobs)
    with scratch("vec") as tmp:
        steps, n = histories(ck, "VecTrace", ["range"], [SEED * 1000 + 200 + k for k in range(pick(1, 12))], pick(6000, 20000), ALL, tmp)
    return ck.finish({
        "spec_transitions_replayed": total, "executions": evals, "traces_validated_against_impl": n, "samples": SAMPLES[:3], "recorded_steps_validated": steps},
        ["windows are created and used at once; nesting depth at most 2"])
