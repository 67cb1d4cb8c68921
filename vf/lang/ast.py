"""The programs of FuMachine.tla: construction, and how they are written as fu source."""

INT, BOOL = ("i",), ("b",)
ARR = ("a", INT)
ARR2 = ("a", ARR)
STR = ("str",)


class Struct:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields  # [(name, ty)]


S1 = Struct("S1", [("a", INT), ("b", ARR)])
TS1 = ("s", S1)
S2 = Struct("S2", [("s", TS1), ("n", INT), ("v", ("a", TS1))])
TS2 = ("s", S2)
ARRS1 = ("a", TS1)
STRUCTS = [S1, S2]
LOGGED = [INT, BOOL, ARR, ARR2, STR, TS1, TS2, ARRS1]


def fty(t):
    if t == INT:
        return "i32"
    if t == BOOL:
        return "bool"
    if t == STR:
        return "string"
    if t[0] == "a":
        return fty(t[1]) + "[]"
    return t[1].name


def logty(t):
    """the type as FuMachine's Flat takes it"""
    if t in (INT, BOOL):
        return ["i"]
    if t == STR:
        return ["a", ["i"]]
    if t[0] == "a":
        return ["a", logty(t[1])]
    return ["s", [logty(f) for _, f in t[1].fields]]


def zero(t):
    if t in (INT, BOOL):
        return 0
    if t == STR or t[0] == "a":
        return []
    return [zero(f) for _, f in t[1].fields]


def prelude():
    out = ["struct %s { %s }" % (s.name, " ".join("%s: %s;" % (n, fty(t)) for n, t in s.fields)) for s in STRUCTS]
    out.append("fn fl(ref o: i32[], v: i32) { o ~= v; }")
    out.append("fn fl(ref o: i32[], v: bool) { o ~= v ? 1 : 0; }")
    out.append("fn fl(ref o: i32[], v: string) { o ~= v.len; for (mut i = 0; i < v.len; i++) o ~= v[i].i32; }")
    for t in (ARR, ARR2, ARRS1):
        body = "{ o ~= v.len; for (mut i = 0; i < v.len; i++) fl(o, v[i]); }"
        if t == ARRS1:
            out.append("fn fl(ref o: i32[], v: S1) { fl(o, v.a); fl(o, v.b); }")
        out.append("fn fl(ref o: i32[], v: %s) %s" % (fty(t), body))
    out.append("fn fl(ref o: i32[], v: S2) { fl(o, v.s); fl(o, v.n); fl(o, v.v); }")
    for t in LOGGED:
        out.append("noinline fn tr(implicit ref log: i32[], id: i32, v: %s) { log ~= id; fl(log, v); return v; }" % fty(t))
    return "\n".join(out) + "\n"


PURE = {"int", "lit", "var", "fld", "un", "bin", "arr", "new", "cat", "app"}
PARTIAL = {"/", "%", "*", "<<", ">>"}


def N(k, t_, xs=(), **kw):
    """an expression node; xs: [(mode, node)]"""
    n = dict(k=k, x=[{"m": m, "e": e} for m, e in xs], p=0, **kw)
    n["_ty"] = t_
    if k in PURE and all(e["p"] for _, e in xs) and not (k == "bin" and n["o"] in PARTIAL):
        n["p"] = 1
    if k == "new":
        n["p"] = 0
    return n


def integer(v):
    return N("int", INT, v=v)


def boolean(v):
    return N("int", BOOL, v=1 if v else 0)


def var(name, ty):
    return N("var", ty, n=name)


def clean(n):
    """without the generator's own annotations"""
    if isinstance(n, dict):
        return {k: clean(v) for k, v in n.items() if not k.startswith("_")}
    if isinstance(n, (list, tuple)):
        return [clean(x) for x in n]
    return n


class Flat:
    """the node table FuMachine reads: expressions and statements by number (from 1)"""

    EXPR, STMT = ("e", "c", "s"), ("b", "a", "h")

    def __init__(self):
        self.nodes = []

    def node(self, n):
        out = {}
        for k, v in n.items():
            if k.startswith("_"):
                continue
            if k == "x":
                v = [dict(m=y["m"], e=self.node(y["e"])) for y in v]
            elif k in ("e", "c", "s", "a", "b") and isinstance(v, dict):
                v = self.node(v)
            elif k in ("a", "b", "h") and isinstance(v, list):
                v = self.stmts(v)
            out[k] = v
        self.nodes.append(out)
        return len(self.nodes)

    def stmts(self, ss):
        return [self.node(s) for s in ss if s["k"] != "localfn"]


# --- as fu source ---------------------------------------------------------------


class Src:
    def __init__(self, pid, rng):
        self.pid, self.rng = pid, rng

    def fname(self, f):
        return "p%d_%s" % (self.pid, f)

    def ex(self, n):
        k, t = n["k"], n["_ty"]
        x = [y["e"] for y in n.get("x", [])]
        if k == "int":
            if t == BOOL:
                return "true" if n["v"] else "false"
            return str(n["v"]) if n["v"] >= 0 else "(%d)" % n["v"]
        if k == "lit":  # a string
            return '"%s"' % "".join(map(chr, n["v"]))
        if k == "var":
            return n["n"]
        if k == "arr":
            if not x:
                return "%s" % fty(t)
            return "[%s]" % ", ".join(map(self.ex, x))
        if k == "new":
            return "%s(%s)" % (t[1].name, ", ".join(map(self.ex, x)))
        if k == "fld":
            return "%s.%s" % (self.ex(x[0]), n["_f"])
        if k == "idx":
            return "%s[%s]" % (self.ex(x[0]), self.ex(x[1]))
        if k == "slice":
            return "%s(%s[%s .. %s])" % ("", self.ex(x[0]), self.ex(x[1]), self.ex(x[2]))
        if k == "un":
            o, a = n["o"], self.ex(x[0])
            if o == "len":
                return "%s.len" % a
            if o == "str":
                return '("" ~ %s)' % a
            if o in ("u8", "i8", "u16", "i16"):
                return "((%s).%s.i32)" % (a, o)
            if o == "bool":
                return "(!!%s)" % a
            if o == "id":
                return a
            return "(%s%s)" % (o, a if x[0]["k"] not in ("pre", "un") else "(%s)" % a)
        if k == "bin":
            o = n["o"]
            a, b = self.ex(x[0]), self.ex(x[1])
            if o in ("max", "min"):
                return "%s(%s, %s)" % (o, a, b)
            if o.startswith("u8") or o.startswith("u16"):
                w = o[:-1]
                return "((%s).%s %s (%s).%s).i32" % (a, w, o[-1], b, w)
            if o.startswith("a"):
                o = o[1:]
            return "(%s %s %s)" % (a, o, b)
        if k in ("cat", "app", "pre1"):
            return "(%s ~ %s)" % (self.ex(x[0]), self.ex(x[1]))
        if k == "tr":
            return "tr(%d, %s)" % (n["id"], self.ex(x[0]))
        if k in ("asg", "opasg", "catasg", "appasg"):
            o = {"asg": "=", "catasg": "~=", "appasg": "~="}.get(k) or n["o"] + "="
            s = "%s %s %s" % (self.ex(x[0]), o, self.ex(x[1]))
            return s if n.get("_stmt") else "(%s)" % s
        if k == "pre":
            return "%s%s" % ("++" if n["by"] > 0 else "--", self.ex(x[0]))
        if k == "post":
            return "%s%s" % (self.ex(x[0]), "++" if n["by"] > 0 else "--")
        if k == "swap":
            return "swap(%s, %s)" % (self.ex(x[0]), self.ex(x[1]))
        if k == "meth":
            o = n["o"]
            a = [self.ex(y) for y in x]
            o = {"del": "splice"}.get(o, o)
            return "%s.%s(%s)" % (a[0], o, ", ".join(a[1:]))
        if k == "and":
            return "(%s && %s)" % (self.ex(n["c"]), self.ex(n["b"]))
        if k == "or":
            return "(%s || %s)" % (self.ex(n["c"]), self.ex(n["b"]))
        if k == "cond":
            return "(%s ? %s : %s)" % (self.ex(n["c"]), self.ex(n["a"]), self.ex(n["b"]))
        if k == "blk":
            return "{ %s %s }" % (self.stmts(n["b"], 0, True), self.ex(x[0]))
        if k == "call":
            f = n["f"]
            return "%s(%s)" % (n.get("_nm") or self.fname(f), ", ".join(self.arg(y) for y in n["x"]))
        if k == "get":
            return self.ex(x[0])
        if k == "lam":
            return self.lam(n)
        raise ValueError(k)

    def arg(self, y):
        return self.ex(y["e"])

    def lam(self, n):
        ps = ", ".join(self.param(q) for q in n["_def"]["_ps"])
        d = n["_def"]
        if d.get("_expr") is not None:
            return "|%s| %s" % (ps, self.ex(d["_expr"]))
        return "|%s| { %s }" % (ps, self.stmts(d["b"], 0, True))

    def param(self, q):
        name, ty, how = q["n"], q["_ty"], q["_how"]
        if how == "fn":
            return name
        return {"let": "lax ", "mut": "lax mut ", "ref": "lax ref "}[how] + name + ": " + fty(ty)

    def stmts(self, ss, ind, oneline=False):
        pad = "" if oneline else "    " * ind
        sep = " " if oneline else "\n"
        return sep.join(pad + self.st(s, ind, oneline) for s in ss)

    def body(self, ss, ind, oneline):
        if oneline:
            return "{ %s }" % self.stmts(ss, 0, True)
        return "{\n%s\n%s}" % (self.stmts(ss, ind + 1), "    " * ind)

    def st(self, s, ind, one):
        k = s["k"]
        if k == "expr":
            return self.ex(s["e"]) + ";"
        if k == "let":
            return "lax %s %s%s = %s;" % ("mut" if s["_mut"] else "let", s["n"], ": " + fty(s["_ty"]) if s.get("_ann") else "", self.ex(s["e"]))
        if k == "ref":
            return "lax ref %s = %s;" % (s["n"], self.ex(s["e"]))
        if k == "if":
            r = "if (%s) %s" % (self.ex(s["c"]), self.body(s["a"], ind, one))
            if s["b"]:
                r += (" else " if one else "\n%selse " % ("    " * ind)) + self.body(s["b"], ind, one)
            return r
        lab = ":%s " % s["l"] if s.get("_lab") else ""
        if k == "while":
            return "%swhile (%s) %s" % (lab, self.ex(s["c"]), self.body(s["b"], ind, one))
        if k == "dowhile":
            return "%sdo %s while (%s);" % (lab, self.body(s["b"], ind, one), self.ex(s["c"]))
        if k == "for":
            return "%sfor (mut %s = %s; %s; %s) %s" % (lab, s["n"], self.ex(s["e"]), self.ex(s["c"]), self.ex(s["s"]), self.body(s["b"], ind, one))
        if k == "block":
            return "%s%s" % (lab, self.body(s["b"], ind, one))
        if k == "lcall":
            return "%s%s;" % (lab, self.ex(s["e"]))
        if k == "brk":
            return "break%s;" % (" :" + s["l"] if s["_lab"] else "")
        if k == "cont":
            return "continue%s;" % (" :" + s["l"] if s["_lab"] else "")
        if k == "ret":
            if s.get("_cont"):
                return "continue %s;" % self.ex(s["e"]) if s["_void"] is False else "continue;"
            return "return %s;" % self.ex(s["e"]) if not s.get("_void") else "return;"
        if k == "throw":
            return "throw(%s);" % self.ex(s["e"])
        if k == "try":
            return "try %s%scatch (%s) %s" % (self.body(s["b"], ind, one), " " if one else "\n" + "    " * ind, s["n"], self.body(s["h"], ind, one))
        if k == "defer":
            return "defer%s %s" % ({"all": "", "ok": ":ok", "err": ":err"}[s["w"]], self.body(s["b"], ind, one))
        if k == "localfn":
            d = s["_def"]
            return "fn %s(%s) %s" % (s["_nm"], ", ".join(self.param(q) for q in d["_ps"]), self.body(d["b"], ind, one))
        raise ValueError(k)
