"""C06: lib/hash.fu against HashMap.tla (what a map is) and HashMapRep.tla (how it is kept)."""
import json
import os
import re
from collections import defaultdict, deque

from vf.common import SEED, CheckError, parallel, pick, rng, scratch, tlc, tlc_design, write_ndjson
from vf.fulib import drive, driver, guarded

KINDS = 9
OPS = {"set": 0, "get": 1, "rem": 2, "ref": 3, "ifref": 4, "clear": 5, "each": 6, "cull": 7, "copy": 8, "try": 9, "fail": 10}


# --- histories at random ---

def history(r, kind, rows):
    style = r.random()
    span = r.choice([3, 8, 16, 40, 200]) if kind != 3 else r.choice([3, 8, 20])   # kind 3: all hashes equal
    keys = lambda: r.randrange(span) * (r.choice([1, 1, 8, 64]) if kind != 7 else 1)
    grow = r.choice([0.25, 0.45, 0.6])
    out = []
    for j in range(rows):
        p = r.random()
        k, v, i, ks = keys(), r.randrange(1, 1000), r.randrange(1000), r.randrange(1 << 16)
        if p < 0.06: op = r.choice(["try", "try", "fail"])
        elif p < grow: op = "set" if r.random() < 0.7 else "ref"
        elif p < 0.8: op = "rem"
        elif p < 0.93: op = "get" if r.random() < 0.7 else "ifref"
        else: op = r.choice(["each", "each", "cull", "cull", "copy", "clear" if style < 0.3 else "each"])
        if op == "cull" and r.random() < 0.5: ks &= r.randrange(1 << 16)
        out.append((OPS[op], k, v, i, ks))
    return [kind, rows] + [x for row in out for x in row]


def describe(h):
    return {"kind": h[0], "rows": [h[2 + j:7 + j] for j in range(0, len(h) - 2, 5)]}


def judge(ck, batches, tmp):
    """batches: [(tag, flavour, [script of one history])]. Returns the steps validated."""

    def one(batch):
        tag, fl, hs = batch
        out, r = drive(driver("map_history", fl), [x for h in hs for x in h], tmp, tag)
        if r.rc != 0 or len(out) != len(hs):
            n = min(len(out), len(hs) - 1)
            ck.violation("crash/%d" % hs[n][0], "a history of map operations crashes: " + r.err.decode("latin1")[:600],
                         {"flavour": fl, "rc": r.rc, "timeout": r.timed_out, "history": describe(hs[n]), "stderr": r.err.decode("latin1")[:5000]})
            if not out:
                return 0, None
        path = os.path.join(tmp, tag + ".ndjson")
        write_ndjson(path, out)
        t = tlc("HashMap", workers=1, env={"TRACE": path}, timeout=600, heap="3g")
        if not t.ok:
            raise CheckError("HashMap on %s: %s" % (tag, t.tail()))
        ran = {}
        for m in re.finditer(r'^"V (\d+) (\w+) (\d+)"$', t.out, re.M):
            ran[int(m.group(1))] = (m.group(2), int(m.group(3)))
        if len(ran) != len(out):
            raise CheckError("HashMap on %s: %d of %d verdicts" % (tag, len(ran), len(out)))
        steps = 0
        for n, (st, l) in ran.items():
            steps += l - 1
            if st == "bad":
                e = out[n - 1]["ops"][l - 1]
                ck.violation("%s/%s" % (hs[n - 1][0], e["o"]), "step %d of a history of map operations is not what a map does: %s" % (l, json.dumps(e)[:400]),
                             {"flavour": fl, "history": describe(hs[n - 1]), "step": l, "operation": e})
        return steps, out[0]["ops"][:6]

    rs = parallel(one, batches)
    return sum(s for s, _ in rs), [x for _, x in rs if x]


# --- every transition of the design ---

def graphs(cfg):
    t = tlc_design("HashMapRep", cfg, min_distinct=100, workers=1, timeout=900)
    g = defaultdict(lambda: defaultdict(dict))     # hashes -> state -> (op, key) -> state
    for m in re.finditer(r'^"E (.*)"$', t.out, re.M):
        e = json.loads(m.group(1).replace('\\"', '"'))
        g[tuple(e["h"])][json.dumps(e["a"])][(e["o"], e["k"])] = (json.dumps(e["b"]))
    if not g:
        raise CheckError("no transitions from HashMapRep")
    return t, g


def tour(edges, limit=60):
    """Walks from the empty map that take every transition; each a list of (op, key)."""
    start = json.dumps({"x": [], "d": []})
    todo = {s: [e for e in es if e[0] != 0] for s, es in edges.items()}
    path = {start: []}
    q = deque([start])
    while q:
        s = q.popleft()
        for e, b in edges[s].items():
            if e[0] != 0 and b not in path:
                path[b] = path[s] + [e]
                q.append(b)
    walks = []
    for s in sorted(path, key=lambda x: -len(path[x])):
        while todo.get(s):
            walk, at = list(path[s]), s
            while todo.get(at) and len(walk) < limit:
                e = todo[at].pop()
                walk.append(e)
                at = edges[at][e]
            walks.append(walk)
    return walks, sum(len(es) for es in edges.values())


def replay(ck, cfg, share, tmp):
    t, g = graphs(cfg)
    r = rng("maps", cfg)
    picked = [h for h in sorted(g) if r.random() < share] or [sorted(g)[0]]
    jobs, edges = [], 0
    for h in picked:
        walks, n = tour(g[h])
        edges += n
        jobs.append((h, walks))

    def one(job):
        h, walks = job
        keys = [8 * (j + 1) + x for j, x in enumerate(h)]        # Low takes the last three bits for the hash
        script, want = [], []
        for w in walks:
            rows, exp, have = [], [], {}
            for n, (o, k) in enumerate(w):
                key = keys[k - 1]
                if o == 2:
                    rows.append((OPS["try"], key, n, 0, 0))
                    exp.append(-1)
                elif o > 0:
                    have[key] = n + 1
                    rows.append((OPS["set"], key, n + 1, 0, 0))
                    exp.append(n + 1)
                else:
                    rows.append((OPS["rem"], key, 0, 0, 0))
                    exp.append(1 if have.pop(key, None) is not None else 0)
                rows.append((OPS["each"], 0, 0, 0, 0))
                exp.append(sorted(map(list, have.items())))
                for x in keys:
                    rows.append((OPS["get"], x, 0, 0, 0))
                    exp.append([1, have[x]] if x in have else [0, 0])
            want.append(exp)
            script += [0, len(rows)] + [x for row in rows for x in row]
        tag = "tour-" + "-".join(map(str, h))
        out, run = drive(driver("map_history"), script, tmp, tag, timeout=300)
        os.remove(os.path.join(tmp, tag + ".script"))
        for n, exp in enumerate(want):
            if n >= len(out):
                ck.violation("tour/crash", "a walk through HashMapRep crashes the map", {"hashes": h, "walk": walks[n], "stderr": run.err.decode("latin1")[:3000], "rc": run.rc})
                break
            for j, (e, x) in enumerate(zip(out[n]["ops"], exp)):
                got = sorted(e["r"]) if e["o"] == "each" else e["r"]
                if got != x:
                    ck.violation("tour/" + e["o"], "after a walk through HashMapRep, %s answers %s, not %s" % (json.dumps(e)[:200], got, x),
                                 {"hashes": h, "keys": keys, "walk": walks[n], "row": j})
                    break
        return len(walks)

    walks = sum(parallel(one, jobs))
    return t, edges, walks


@guarded
def c06(ck):
    driver("map_history")
    with scratch("maps") as tmp:
        d = tlc_design("HashMapRep", pick("HashMapRepSmall", "HashMapRep"), min_distinct=500, timeout=900)
        t, edges, walks = replay(ck, pick("HashMapRepEmit", "HashMapRepEmitAll"), pick(0.5, 1), tmp)
        batches = []
        for n in range(pick(24, 400)):
            r = rng("maps", n)
            kind = n % KINDS
            hs = [history(r, kind, r.choice([30, 80, 160])) for _ in range(30)]
            batches.append(("h%d" % n, pick("plain", "asan" if n % 4 == 0 else "plain"), hs))
        steps, samples = judge(ck, batches, tmp)
    return ck.finish({
        "design_states": d.distinct, "spec_transitions_replayed": edges, "walks": walks, "traces_validated_against_impl": sum(len(b[2]) for b in batches) + walks,
        "recorded_steps_validated": steps, "samples": samples[:2]},
        ["hashes that agree in their low bits make a large index: such keys are few here", "single-threaded use of one map"])
