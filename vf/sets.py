"""C07: lib/BitSet.fu against Bits*.tla. C08: src/flat.fu against Flat*.tla."""
import json
import os
import re

from vf.common import CheckError, parallel, pick, rng, scratch, tlc, tlc_design, write_ndjson
from vf.fulib import drive, driver, guarded


def cases(module, cfg):
    t = tlc_design(module, cfg, min_distinct=100, workers=1, timeout=600)
    out = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"C (.*)"$', t.out, re.M)]
    if len(out) < 100:
        raise CheckError("no cases from " + cfg)
    return out


def validate(ck, module, name, batches, tmp, label):
    """batches: [(tag, flavour, [script of one history])]; each history is run and its recording judged by the module."""

    def one(batch):
        tag, fl, hs = batch
        out, r = drive(driver(name, fl), [x for h in hs for x in h], tmp, tag)
        if r.rc != 0 or len(out) != len(hs):
            n = min(len(out), len(hs) - 1)
            ck.violation("crash/" + label(hs[n]), "a history of operations crashes: " + r.err.decode("latin1")[:600],
                         {"flavour": fl, "rc": r.rc, "timeout": r.timed_out, "history": hs[n], "stderr": r.err.decode("latin1")[:5000]})
            if not out:
                return 0, None
        path = os.path.join(tmp, tag + ".ndjson")
        write_ndjson(path, out)
        t = tlc(module, workers=1, env={"TRACE": path}, timeout=600, heap="3g")
        if not t.ok:
            raise CheckError("%s on %s: %s" % (module, tag, t.tail()))
        ran = {int(a): (b, int(c)) for a, b, c in re.findall(r'^"V (\d+) (\w+) (\d+)"$', t.out, re.M)}
        if len(ran) != len(out):
            raise CheckError("%s on %s: %d of %d verdicts" % (module, tag, len(ran), len(out)))
        steps = 0
        for n, (st, l) in ran.items():
            steps += l - 1
            if st == "bad":
                e = out[n - 1]["ops"][l - 1]
                ck.violation("%s/%s" % (label(hs[n - 1]), e["o"]), "step %d of a history does not do what it should: %s" % (l, json.dumps(e)[:400]),
                             {"flavour": fl, "history": hs[n - 1], "step": l, "before": out[n - 1]["ops"][max(0, l - 6):l - 1], "operation": e})
        os.remove(path)
        return steps, out[0]["ops"][:6]

    rs = parallel(one, batches)
    return sum(s for s, _ in rs), [x for _, x in rs if x]


def replay(ck, name, todo, tmp, tag):
    """todo: [(script of one history, [(row, what it has to show)], case)]."""
    out, r = drive(driver(name), [x for s, _, _ in todo for x in s], tmp, tag, timeout=600)
    for n, (script, want, case) in enumerate(todo):
        if n >= len(out):
            ck.violation("case/crash", "a case of the specification crashes the implementation: %s" % case, {"case": case, "stderr": r.err.decode("latin1")[:3000], "rc": r.rc})
            return
        for row, exp in want:
            got = {k: out[n]["ops"][row][k] for k in exp}
            if got != exp:
                ck.violation("case/" + case["o"], "%s gives %s" % (json.dumps(case), json.dumps(got)), {"case": case, "got": got, "history": script})
                break


# --- bit sets ---

BITS = {o: n for n, o in enumerate(["add", "remove", "addall", "or", "remall", "range", "clearto", "negated", "clear", "has", "inter", "missing"])}


def bits_history(r, rows):
    span = r.choice([9, 17, 70, 140])
    at = lambda: min(span, r.choice([r.randrange(span), r.randrange(span // 8 + 1) * 8 + r.choice([0, 0, 1, 7])]))
    out = []
    for _ in range(rows):
        op = r.choices(list(BITS), [6, 5, 1, 1, 2, 1.5, 1.5, 1, 0.3, 1, 2, 2])[0]
        p = r.choices(range(4), [4, 2, 1, 1])[0]
        out += [BITS[op], p, r.randrange(4), at()]
    return [rows] + out


def bits_case(c):
    rows = [(BITS["add"], 0, 0, x) for x in c["a"]] + [(BITS["add"], 1, 1, x) for x in c["b"]] + [(BITS[c["o"]], 0, 1, c["x"])]
    last = len(rows) - 1
    rows.append((BITS["has"], 1, 1, 0))
    want = [(last, {"r": c["r"], "s": c["s"], "n": len(c["s"]), "t": 1 if c["s"] else 0}), (last + 1, {"s": c["b"]})]
    return [len(rows)] + [x for row in rows for x in row], want, c


@guarded
def c07(ck):
    driver("bits_history")
    with scratch("bits") as tmp:
        d = tlc_design("BitsRep", pick("BitsRep", "BitsRepBig"), min_distinct=1000, timeout=900)
        todo = [bits_case(c) for c in cases("BitsCases", pick("BitsCases", "BitsCasesBig"))]
        parts = [todo[j::16] for j in range(16)]
        parallel(lambda j: replay(ck, "bits_history", parts[j], tmp, "c%d" % j), range(16))
        batches = []
        for n in range(pick(24, 400)):
            r = rng("bits", n)
            batches.append(("h%d" % n, "asan" if n % 4 == 0 else "plain", [bits_history(r, r.choice([20, 60, 120])) for _ in range(40)]))
        steps, samples = validate(ck, "BitsTrace", "bits_history", batches, tmp, lambda h: "history")
    return ck.finish({"design_states": d.distinct, "cases_replayed": len(todo), "traces_validated_against_impl": sum(len(b[2]) for b in batches) + len(todo),
                      "recorded_steps_validated": steps, "samples": samples[:2]}, ["members below 142", "negative numbers are not members"])


# --- sorted sets, maps and counted sets ---

SETS = {o: n for n, o in enumerate(["add", "remove", "has", "addall", "keepall", "remall", "hasinter", "misses", "inter", "union", "diff", "clear", "copy"])}
SIZES = {"set": 13, "map": 11, "counted": 6}


def flat_history(r, kind, rows):
    out = []
    if kind < 4:
        span = r.choice([3, 6, 12, 40])
        for _ in range(rows):
            op = r.choices(list(SETS), [8, 3, 1, 1, 0.7, 1, 2, 2, 1, 1, 1, 0.2, 0.7])[0]
            out += [SETS[op], r.choices(range(4), [4, 2, 2, 1])[0], r.randrange(4), r.randrange(span)]
    elif kind < 8:
        span = r.choice([3, 6, 12, 40])
        for _ in range(rows):
            out += [r.choices(range(11), [5, 2, 1, 4, 2, 1, 2, 0.2, 0.7, 0.7, 0.4])[0], r.randrange(span), r.randrange(20), r.randrange(20)]
    else:
        span = r.choice([2, 4, 9, 30])
        for _ in range(rows):
            out += [r.choices(range(6), [6, 5, 2, 1, 0.7, 0.1])[0], r.randrange(span), 0, 0]
    return [kind, rows] + out


def flat_case(kind, c):
    rows = [(SETS["add"], 0, 0, x) for x in reversed(c["a"])] + [(SETS["add"], 1, 1, x) for x in c["b"]] + [(SETS[c["o"]], 0, 1, c["x"])]
    last = len(rows) - 1
    rows.append((SETS["has"], 1, 1, 0))
    want = [(last, {"r": c["r"], "s": c["s"], "n": len(c["s"])}), (last + 1, {"s": c["b"]})]
    return [kind, len(rows)] + [x for row in rows for x in row], want, c


@guarded
def c08(ck):
    driver("flat_history")
    with scratch("flat") as tmp:
        d = tlc_design("FlatRep", pick("FlatRep", "FlatRepBig"), min_distinct=1000, timeout=900)
        cs = cases("FlatCases", pick("FlatCases", "FlatCasesBig"))
        parts = [[flat_case(k, c) for c in cs] for k in pick((0, 1), (0, 1, 2, 3))]
        parts = [p[j::4] for p in parts for j in range(4)]
        parallel(lambda j: replay(ck, "flat_history", parts[j], tmp, "c%d" % j), range(len(parts)))
        batches = []
        for n in range(pick(30, 500)):
            r = rng("flat", n)
            batches.append(("h%d" % n, "asan" if n % 4 == 0 else "plain", [flat_history(r, n % 10, r.choice([20, 60, 120])) for _ in range(30)]))
        steps, samples = validate(ck, "FlatTrace", "flat_history", batches, tmp, lambda h: "sets maps counted".split()[(h[0] >= 4) + (h[0] >= 8)])
    return ck.finish({"design_states": d.distinct, "cases_replayed": sum(map(len, parts)), "traces_validated_against_impl": sum(len(b[2]) for b in batches) + sum(map(len, parts)),
                      "recorded_steps_validated": steps, "samples": samples[:2]}, ["keys in the order of up to 40 numbers"])
