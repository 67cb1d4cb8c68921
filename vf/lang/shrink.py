"""Reduces a program while a predicate holds (used to study failures, not by the checks)."""
import copy

from vf.common import parallel
from vf.lang import ast, gen


def lists(x, out):
    """all statement lists"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("b", "a", "h") and isinstance(v, list):
                out.append((x, k))
            if k != "_def" or x.get("k") in ("lam", "localfn"):
                lists(v, out)
    elif isinstance(x, list):
        for v in x:
            lists(v, out)


def exprs(x, out):
    """all slots that hold an expression"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("e", "c", "s", "a", "b") and isinstance(v, dict) and "_ty" in v:
                out.append((x, k))
            if k != "_def" or x.get("k") in ("lam", "localfn"):
                exprs(v, out)
    elif isinstance(x, list):
        for v in x:
            exprs(v, out)


def leaf(ty):
    if ty == ast.INT:
        return ast.integer(2)
    if ty == ast.BOOL:
        return ast.boolean(True)
    if ty == ast.STR:
        return ast.N("lit", ast.STR, v=[97])
    if ty[0] == "a":
        return ast.N("arr", ty, [("v", leaf(ty[1]))])
    return ast.N("new", ty, [("v", leaf(ft)) for _, ft in ty[1].fields])


def roots(p):
    return [{"k": "root", "b": p.main}] + [f for n, f in p.fns.items() if n not in gen.HELPER_AST and n != "none"]


def variants(p):
    """functions that make a smaller program out of a deep copy"""
    out = []
    ls = []
    for r in roots(p):
        lists(r, ls)
    for i, (o, k) in enumerate(ls):
        n = len(o[k])
        if n > 2:
            out.append(("cut", i, 0, n // 2))
            out.append(("cut", i, n // 2, n))
        for j in range(n):
            out.append(("cut", i, j, j + 1))
            if o[k][j]["k"] in ("if", "block", "try", "for", "while", "dowhile"):
                out.append(("open", i, j, 0))
    es = []
    for r in roots(p):
        exprs(r, es)
    for i, (o, k) in enumerate(es):
        e = o[k]
        if e["k"] not in ("int", "var", "lit", "lam"):
            out.append(("leaf", i, 0, 0))
            for j, y in enumerate(e.get("x", [])):
                if y["e"]["_ty"] == e["_ty"]:
                    out.append(("sub", i, j, 0))
            for kk in ("a", "b", "c"):
                if isinstance(e.get(kk), dict) and e[kk].get("_ty") == e["_ty"]:
                    out.append(("alt", i, kk, 0))
    for i in range(len(p.heads)):
        out.append(("fn", i, 0, 0))
    return out


def apply(p, v):
    q = copy.deepcopy(p)
    if v[0] == "fn":
        nm = q.heads[v[1]][0]
        del q.heads[v[1]], q.fns[nm]
        return q
    ls, es = [], []
    for r in roots(q):
        (lists if v[0] in ("cut", "open") else exprs)(r, ls)
    o, k = ls[v[1]]
    if v[0] == "cut":
        del o[k][v[2]:v[3]]
        if o.get("k") == "root":
            pass
    elif v[0] == "open":
        s = o[k][v[2]]
        o[k][v[2]:v[2] + 1] = (s.get("a") or []) + (s.get("b") or []) if s["k"] == "if" else s["b"]
    elif v[0] == "leaf":
        o[k] = leaf(o[k]["_ty"]) if o[k]["_ty"][0] in ("i", "b", "str", "a", "s") else o[k]
    elif v[0] == "sub":
        o[k] = o[k]["x"][v[2]]["e"]
    elif v[0] == "alt":
        o[k] = o[k][v[2]]
    # purity flags are derived
    return q


def fix_pure(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k != "_ty":
                fix_pure(v)
        if "p" in x:
            x["p"] = 1 if x["k"] in ast.PURE - {"new"} and all(y["e"]["p"] for y in x["x"]) and not (x["k"] == "bin" and x["o"] in ast.PARTIAL) else 0
    elif isinstance(x, (list, tuple)):
        for v in x:
            fix_pure(v)


def shrink(p, test, rounds=200, jobs=8):
    """test(program, tag) -> bool"""
    while rounds > 0:
        vs = variants(p)
        found = False
        i = 0
        while i < len(vs):
            cand = []
            for v in vs[i:i + jobs]:
                try:
                    q = apply(p, v)
                    fix_pure(q.main)
                    fix_pure(q.fns)
                    q.source()
                    cand.append(q)
                except Exception:
                    cand.append(None)
            rs = parallel(lambda iq: iq[1] is not None and test(iq[1], iq[0]), list(enumerate(cand)), jobs)
            i += jobs
            for q, ok in zip(cand, rs):
                if ok:
                    p, found = q, True
                    break
            if found:
                rounds -= 1
                break
        if not found:
            break
    return p
