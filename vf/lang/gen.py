"""Random programs for FuMachine.tla. What they mean is not decided here."""
from vf.lang.ast import (ARR, ARR2, ARRS1, BOOL, INT, LOGGED, N, S1, S2, STR, TS1, TS2, Flat, Src, boolean, clean, fty, integer, logty, var)


class Var:
    def __init__(self, name, ty, mut, level, kind="local"):
        self.name, self.ty, self.mut, self.level, self.kind = name, ty, mut, level, kind


class Profile:
    """weights; see PROFILES"""

    def __init__(self, **kw):
        self.fns = (1, 3)
        self.stmts = (3, 7)
        self.depth = 3
        self.nest = 2
        self.types = [INT, INT, INT, BOOL, ARR, ARR, ARR2, STR, TS1, TS2, ARRS1]
        self.w = dict(tr=8, let=6, asg=6, op=4, cat=4, meth=4, if_=3, for_=2, while_=1, dowhile=0.5, block=1.5, try_=1, throw=0.6, ret=0.7, brk=1.5,
                      defer=1, call=3, swap=0.7, ref=0, lcall=1, localfn=0.7, inc=2)
        self.effects = 0.35    # how often expressions have effects
        self.refs = False
        self.dangle = (0, 0)
        self.tidy = (0, 0)
        for k, v in kw.items():
            if k == "w":
                self.w.update(v)
            else:
                setattr(self, k, v)


PROFILES = {
    "values": Profile(),
    "control": Profile(fns=(1, 3), stmts=(3, 6), nest=3, depth=2, types=[INT, INT, INT, BOOL, ARR, STR],
                       w=dict(try_=4, throw=3, defer=5, brk=5, ret=3, for_=4, while_=2, dowhile=1, block=3, lcall=3, localfn=1, meth=1, cat=1, swap=0.1, let=4)),
    # scopes with defers of their own, entered from defers: while something is being thrown, and while nothing is
    "unwind": Profile(fns=(1, 2), stmts=(3, 6), nest=3, depth=2, tidy=(1, 3), types=[INT, INT, INT, BOOL, ARR, STR],
                      w=dict(try_=6, throw=5, defer=8, brk=3, ret=3, for_=3, while_=1, dowhile=1, block=3, lcall=2, localfn=0.5, meth=1, cat=1, swap=0.1, let=3)),
    "order": Profile(fns=(2, 4), stmts=(4, 8), depth=4, nest=1, effects=0.8, types=[INT, INT, INT, BOOL, ARR, STR, TS1],
                     w=dict(try_=0.3, throw=0.1, defer=0.3, brk=0.2, for_=0.7, while_=0.2, dowhile=0.1, tr=8, call=6, asg=8, op=6, inc=5)),
    "borrow": Profile(fns=(1, 3), stmts=(3, 7), depth=2, nest=2, refs=True, types=[INT, INT, ARR, ARR, ARR2, TS1, TS2, ARRS1, STR],
                      w=dict(ref=7, asg=5, meth=6, cat=4, for_=2, if_=3, swap=2, call=6, localfn=1.5, let=6, defer=1)),
    # a reference or a copy, a write to what it came from by some route, and a use
    "dangle": Profile(fns=(0, 1), stmts=(0, 1), depth=1, nest=1, refs=True, types=[INT, INT, ARR, ARR, ARR2, TS1, TS2, ARRS1, STR], dangle=(1, 2),
                      w=dict(ref=1, asg=5, meth=5, cat=3, for_=1, if_=2, swap=1, call=3, localfn=0.5, let=4, defer=0.5)),
}


class Gen:
    def __init__(self, pid, rng, prof):
        self.pid, self.r, self.pf = pid, rng, prof
        self.nv = self.nid = self.nl = self.nf = 0
        self.fns = {}     # name -> def
        self.tidies = []  # the ones with defers that throw nothing
        self.heads = []   # (name, def, result type, modifiers)
        self.vars = []
        self.level = 0
        self.loops = []   # (label, level, continuable)
        self.thrown = False
        self.quiet = 0    # inside a defer: no jumps out
        self.calm = False  # nothing that is thrown gets out
        self.nofx = 0
        self.cost = 1     # how often the current code runs, roughly
        self.locals_ = []  # local functions in scope
        self.ret = None
        self.fnlevel = 0
        self.trying = 0
        self.legal = True  # no references besides those in calls

    # --- names
    def name(self, p="v"):
        self.nv += 1
        return "%s%d" % (p, self.nv)

    def tid(self):
        self.nid += 1
        return 1000 + self.nid

    def chance(self, x):
        return self.r.random() < x

    def ty(self):
        return self.r.choice(self.pf.types)

    # --- variables
    def pick(self, ty, mut=False):
        vs = [v for v in self.vars if v.ty == ty and (v.mut or not mut)]
        if not vs:
            return None
        return self.r.choice(vs[-6:] if self.chance(0.7) else vs)

    # --- lvalues: (node, guard) where guard is a boolean node or None
    def lval(self, ty, avoid=()):
        c = []
        for v in self.vars:
            if not v.mut or v.name in avoid:
                continue
            n = var(v.name, v.ty)
            c += self.parts(n, v.ty, ty, None, v)
        if not c:
            return None
        return self.r.choice(c)

    def parts(self, n, have, want, guard, v, depth=0):
        out = []
        if have == want:
            out.append((n, guard, v))
        if depth >= 3:
            return out
        if have[0] == "s":
            for k, (fn, ft) in enumerate(have[1].fields):
                out += self.parts(N("fld", ft, [("v", n)], i=k + 1, _f=fn), ft, want, guard, v, depth + 1)
        elif have[0] == "a" and have != STR:
            k = self.r.choice([0, 0, 1, 2])
            g = N("bin", BOOL, [("v", N("un", INT, [("v", n)], o="len")), ("v", integer(k))], o=">")
            g2 = g if guard is None else dict(N("and", BOOL), c=guard, b=g, o="")
            out += self.parts(N("idx", have[1], [("v", n), ("v", integer(k))]), have[1], want, g2, v, depth + 1)
        return out

    # --- expressions
    def e(self, ty, d):
        if d <= 0:
            return self.leaf(ty)
        f = {INT: self.e_int, BOOL: self.e_bool, STR: self.e_str}.get(ty)
        if f:
            return f(d)
        if ty[0] == "a":
            return self.e_arr(ty, d)
        return self.e_struct(ty, d)

    def leaf(self, ty):
        v = self.pick(ty)
        if v and self.chance(0.75):
            return var(v.name, ty)
        if ty == INT:
            return integer(self.r.choice([0, 1, 2, 3, 5, 7, 11, -1, -4, self.r.randint(-30, 99)]))
        if ty == BOOL:
            return boolean(self.chance(0.5))
        if ty == STR:
            return N("lit", STR, v=[97 + self.r.randrange(6) for _ in range(self.r.choice([0, 1, 2, 3, 9, 20]))])
        if ty[0] == "a":
            n = self.r.choice([1, 2, 3, 3, 4, 6]) if ty == ARR else self.r.choice([1, 2, 3])
            return N("arr", ty, [("v", self.leaf(ty[1])) for _ in range(n)])
        return N("new", ty, [("v", self.leaf(ft)) for _, ft in ty[1].fields])

    def fx(self):
        return not self.nofx and self.chance(self.pf.effects)

    def common(self, ty, d):
        """constructs available at every type"""
        r = self.r.random()
        if self.fx():
            if r < 0.35:
                return N("tr", ty, [("v", self.e(ty, d - 1))], id=self.tid(), ty=logty(ty))
            if r < 0.75:
                c = self.call(ty, d - 1)
                if c:
                    return c
            if r < 0.9 and self.pf.nest:
                return self.blockexpr(ty, d - 1)
        if r < 0.3:
            return dict(N("cond", ty), c=self.e(BOOL, d - 1), a=self.e(ty, d - 1), b=self.e(ty, d - 1), o="")
        if r < 0.6:
            p = self.part_of(ty)
            if p:
                return p
        return None

    def part_of(self, ty):
        """a part of some variable, guarded"""
        c = []
        for v in self.vars[-8:]:
            if v.kind == "fn":
                continue
            c += [x for x in self.parts(var(v.name, v.ty), v.ty, ty, None, v) if x[0]["k"] != "var"]
        if not c:
            return None
        n, g, _ = self.r.choice(c)
        if g is None:
            return n
        return dict(N("cond", ty), c=g, a=n, b=self.leaf(ty), o="")

    def blockexpr(self, ty, d):
        mark = len(self.vars)
        ss = [self.simple() for _ in range(self.r.choice([1, 1, 2]))]
        x = self.e(ty, d)
        del self.vars[mark:]
        return N("blk", ty, [("v", x)], b=[s for s in ss if s])

    def small(self, n):
        """keeps an integer expression small"""
        return N("bin", INT, [("v", n), ("v", integer(97))], o="%")

    def quietly(self, f, *a):
        self.nofx += 1
        try:
            return f(*a)
        finally:
            self.nofx -= 1

    def e_int(self, d):
        if self.chance(0.35):
            c = self.common(INT, d)
            if c:
                return c
        k = self.r.choice(["+", "+", "-", "*", "%", "/", "cmp", "len", "&", "|", "^", "<<", ">>", "conv", "neg", "inc", "inc", "or", "leaf", "max", "u8"])
        if k in ("+", "-", "&", "|", "^"):
            return N("bin", INT, [("v", self.e(INT, d - 1)), ("v", self.e(INT, d - 1))], o=k)
        if k in ("max",):
            # these return one of their arguments by reference
            return N("bin", INT, [("v", self.quietly(self.e, INT, d - 1)), ("v", self.quietly(self.e, INT, d - 1))], o=self.r.choice(["max", "min"]))
        if k == "u8":
            return N("bin", INT, [("v", self.e(INT, d - 1)), ("v", self.e(INT, d - 1))], o=self.r.choice(["u8+", "u16+", "u8-", "u16-", "u8*"]))
        if k == "*":
            return N("bin", INT, [("v", self.small(self.e(INT, d - 1))), ("v", self.small(self.e(INT, d - 1)))], o="*")
        if k in ("%", "/"):
            return N("bin", INT, [("v", self.e(INT, d - 1)), ("v", integer(self.r.choice([2, 3, 7, 10, -3])))], o=k)
        if k == "<<":
            return N("bin", INT, [("v", N("bin", INT, [("v", self.e(INT, d - 1)), ("v", integer(15))], o="&")), ("v", integer(self.r.randint(0, 6)))], o=k)
        if k == ">>":
            return N("bin", INT, [("v", self.small(self.e(INT, d - 1))), ("v", integer(self.r.randint(0, 6)))], o=k)
        if k == "conv":
            return N("un", INT, [("v", self.e(INT, d - 1))], o=self.r.choice(["u8", "i8", "u16", "i16"]))
        if k == "neg":
            return N("un", INT, [("v", self.e(INT, d - 1))], o=self.r.choice(["-", "~"]))
        if k == "len":
            v = self.pick(self.r.choice([ARR, ARR2, STR, ARRS1]))
            if v:
                return N("un", INT, [("v", var(v.name, v.ty))], o="len")
        if k == "inc" and not self.nofx:
            v = self.pick(INT, mut=True)
            if v and v.kind != "loop":
                return N(self.r.choice(["pre", "post"]), INT, [("r", var(v.name, INT))], by=self.r.choice([1, -1]))
        if k == "or":
            return dict(N("or", INT), c=self.e(INT, d - 1), b=self.e(INT, d - 1), o="")
        if k == "cmp":
            return dict(N("cond", INT), c=self.e(BOOL, d - 1), a=self.e(INT, d - 1), b=self.e(INT, d - 1), o="")
        return self.leaf(INT)

    def e_bool(self, d):
        if self.chance(0.25):
            c = self.common(BOOL, d)
            if c:
                return c
        k = self.r.choice(["<", ">", "<=", ">=", "==", "!=", "and", "or", "!", "arr", "leaf", "bool", "str"])
        if k in ("<", ">", "<=", ">=", "==", "!="):
            return N("bin", BOOL, [("v", self.e(INT, d - 1)), ("v", self.e(INT, d - 1))], o=k)
        if k in ("and", "or"):
            return dict(N(k, BOOL), c=self.e(BOOL, d - 1), b=self.e(BOOL, d - 1), o="")
        if k == "!":
            return N("un", BOOL, [("v", self.e(BOOL, d - 1))], o="!")
        if k == "bool":
            return N("un", BOOL, [("v", self.e(INT, d - 1))], o="bool")
        if k == "arr":
            return N("bin", BOOL, [("v", self.e(ARR, d - 1)), ("v", self.e(ARR, d - 1))], o=self.r.choice(["==", "!="]))
        if k == "str":
            return N("bin", BOOL, [("v", self.e(STR, d - 1)), ("v", self.e(STR, d - 1))], o=self.r.choice(["==", "!=", "a<", "a>", "a<=", "a>="]))
        return self.leaf(BOOL)

    def e_str(self, d):
        if self.chance(0.4):
            c = self.common(STR, d)
            if c:
                return c
        k = self.r.choice(["cat", "cat", "str", "leaf"])
        if k == "cat":
            return N("cat", STR, [("v", self.e(STR, d - 1)), ("v", self.e(STR, d - 1))])
        if k == "str":
            return N("un", STR, [("v", self.e(INT, d - 1))], o="str")
        return self.leaf(STR)

    def e_arr(self, ty, d):
        if self.chance(0.4):
            c = self.common(ty, d)
            if c:
                return c
        k = self.r.choice(["cat", "app", "pre1", "slice", "leaf", "lit"])
        if k == "cat":
            return N("cat", ty, [("v", self.e(ty, d - 1)), ("v", self.e(ty, d - 1))])
        if k == "app":
            return N("app", ty, [("v", self.e(ty, d - 1)), ("v", self.e(ty[1], d - 1))])
        if k == "pre1":
            return N("pre1", ty, [("v", self.e(ty[1], d - 1)), ("v", self.e(ty, d - 1))])
        if k == "slice":
            v = self.pick(ty)
            if v:
                i = self.r.choice([0, 0, 1])
                j = i + self.r.choice([0, 1, 2])
                g = N("bin", BOOL, [("v", N("un", INT, [("v", var(v.name, ty))], o="len")), ("v", integer(j))], o=">=")
                sl = N("slice", ty, [("v", var(v.name, ty)), ("v", integer(i)), ("v", integer(j))])
                return dict(N("cond", ty), c=g, a=N("cat", ty, [("v", sl), ("v", self.leaf(ty))]), b=self.leaf(ty), o="")
        if k == "lit":
            n = self.r.choice([1, 2, 3, 4])
            return N("arr", ty, [("v", self.e(ty[1], d - 1)) for _ in range(n)])
        return self.leaf(ty)

    def e_struct(self, ty, d):
        if self.chance(0.5):
            c = self.common(ty, d)
            if c:
                return c
        if self.chance(0.6):
            return N("new", ty, [("v", self.e(ft, d - 1)) for _, ft in ty[1].fields])
        return self.leaf(ty)

    # --- calls
    def args(self, ps, d, avoid=()):
        """arguments and the guard they need; None when there are none to give"""
        xs, guard, used = [], None, set(avoid)
        for q in ps:
            if q["_how"] == "ref":
                lv = self.lval(q["_ty"], used)
                if not lv:
                    return None
                n, g, v = lv
                used.add(v.name)
                guard = g if guard is None else guard if g is None else dict(N("and", BOOL), c=guard, b=g, o="")
                xs.append(("r", n))
            else:
                xs.append(("v", self.e(q["_ty"], d)))
        return xs, guard, used

    def call(self, ty, d):
        # nothing is thrown out of a defer: that terminates the program
        fs = [(n, h) for n, h, t, _ in self.heads if t == ty and not (self.silent() and h["_throws"])]
        ls = [x for x in self.locals_ if x[2] == ty and not (self.silent() and x[1]["_throws"])]
        if ls and self.chance(0.5):
            nm, h, _, lvl, key = self.r.choice(ls)
            # known finding: a captured integer does not see the callee's writes through a reference to it
            a = self.args(h["_ps"], d, self.captured(h["b"]))
            if a is None:
                return None
            self.thrown |= h["_throws"]
            n = N("call", ty, a[0], f=key, d=self.level - lvl + 1, _nm=nm)
        elif fs:
            nm, h = self.r.choice(fs)
            a = self.args(h["_ps"], d)
            if a is None:
                return None
            self.thrown |= h["_throws"]
            n = N("call", ty, a[0], f=nm, d=0)
        else:
            return None
        if a[1] is not None:
            return dict(N("cond", ty), c=a[1], a=n, b=self.leaf(ty), o="")
        return n

    def captured(self, b, seen=()):
        """variables that a local function, or one that it calls, mentions"""
        out = used_vars(b)
        for nm, h, _, _, key in self.locals_:
            if key not in seen and mentions(b, key):
                out |= self.captured(h["b"], seen + (key,))
        return out

    # --- statements
    def guarded(self, g, s):
        if g is None:
            return s
        return dict(k="if", c=g, a=[s], b=[])

    def simple(self):
        """a statement without control flow"""
        for _ in range(6):
            w = self.r.choice(["tr", "asg", "op", "cat", "inc", "meth"])
            s = getattr(self, "s_" + w)(1)
            if s:
                return s
        return self.s_tr(1)

    def expr(self, n):
        n["_stmt"] = 1
        return dict(k="expr", e=n)

    def s_tr(self, d):
        ty = self.ty()
        return self.expr(N("tr", ty, [("v", self.e(ty, d))], id=self.tid(), ty=logty(ty)))

    def s_let(self, d):
        ty = self.ty()
        n = self.e(ty, d)
        if ty[0] == "a" and n["k"] == "lit" and not n["v"]:
            n = N("lit", STR, v=[97])
        v = Var(self.name(), ty, self.chance(0.75), self.level)
        s = dict(k="let", n=v.name, e=n, _mut=v.mut, _ty=ty, _ann=self.chance(0.3))
        self.vars.append(v)
        return s

    def s_asg(self, d):
        ty = self.ty()
        lv = self.lval(ty)
        if not lv or lv[2].kind == "loop":
            return None
        return self.guarded(lv[1], self.expr(N("asg", ty, [("r", lv[0]), ("v", self.e(ty, d))])))

    def s_op(self, d):
        lv = self.lval(INT)
        if not lv or lv[2].kind == "loop":
            return None
        o = self.r.choice(["+", "+", "-", "&", "|", "^", "%"])
        b = integer(self.r.choice([3, 7, 11])) if o == "%" else self.e(INT, d)
        return self.guarded(lv[1], self.expr(N("opasg", INT, [("r", lv[0]), ("v", b)], o=o)))

    def s_inc(self, d):
        lv = self.lval(INT)
        if not lv or lv[2].kind == "loop":
            return None
        return self.guarded(lv[1], self.expr(N(self.r.choice(["pre", "post"]), INT, [("r", lv[0])], by=self.r.choice([1, -1]))))

    def arrty(self):
        return self.r.choice([t for t in self.pf.types if t == STR or t[0] == "a"] or [ARR])

    def s_cat(self, d):
        ty = self.arrty()
        lv = self.lval(ty)
        if not lv:
            return None
        if ty != STR and self.chance(0.5):
            return self.guarded(lv[1], self.expr(N("appasg", ty, [("r", lv[0]), ("v", self.e(ty[1], d))])))
        return self.guarded(lv[1], self.expr(N("catasg", ty, [("r", lv[0]), ("v", self.e(ty, d))])))

    def s_meth(self, d):
        ty = self.arrty()
        if ty == STR:
            return None
        lv = self.lval(ty)
        if not lv:
            return None
        n, g, _ = lv
        ln = N("un", INT, [("v", n)], o="len")
        o = self.r.choice(["push", "push", "unshift", "pop", "shift", "insert", "splice", "del", "clear", "shrink"] + (["resize"] if ty == ARR else []))
        need, xs = None, []
        k = self.r.choice([0, 0, 1])
        if o in ("push", "unshift"):
            xs = [self.e(ty[1], d)]
        elif o in ("pop", "shift"):
            need = 1
        elif o == "insert":
            need, xs = k, [integer(k), self.e(ty[1], d)]
        elif o == "splice":
            m = self.r.choice([0, 1, 2])
            need, xs = k + m, [integer(k), integer(m), self.e(ty, d)]
        elif o == "del":
            m = self.r.choice([0, 1, 2])
            need, xs = k + m, [integer(k), integer(m)]
        elif o == "shrink":
            need, xs = k, [integer(k)]
        elif o == "resize":
            xs = [integer(self.r.randint(0, 8))]
        if need:
            g2 = N("bin", BOOL, [("v", ln), ("v", integer(need))], o=">=")
            g = g2 if g is None else dict(N("and", BOOL), c=g, b=g2, o="")
        return self.guarded(g, self.expr(N("meth", ("void",), [("r", n)] + [("v", x) for x in xs], o=o)))

    def s_swap(self, d):
        ty = self.ty()
        a = self.lval(ty)
        if not a:
            return None
        b = self.lval(ty, (a[2].name,))
        if not b or "loop" in (a[2].kind, b[2].kind):
            return None
        g = a[1] if b[1] is None else b[1] if a[1] is None else dict(N("and", BOOL), c=a[1], b=b[1], o="")
        return self.guarded(g, self.expr(N("swap", ("void",), [("r", a[0]), ("r", b[0])])))

    def s_ref(self, d):
        ty = self.ty()
        lv = self.lval(ty)
        if not lv or lv[2].kind == "loop":
            return None
        # a reference under a guard lives in the guarded block
        n, g, v = lv
        nm = self.name("r")
        s = dict(k="ref", n=nm, e=n)
        if g is None:
            self.vars.append(Var(nm, ty, True, self.level, "ref"))
            return s
        mark = len(self.vars)
        self.vars.append(Var(nm, ty, True, self.level, "ref"))
        body = [s] + self.block(2, d)
        del self.vars[mark:]
        return dict(k="if", c=g, a=body, b=[])

    def s_call(self, d):
        ty = self.r.choice([INT, INT, ARR, TS1, STR])
        c = self.call(ty, d)
        if not c:
            return None
        return self.expr(N("tr", ty, [("v", c)], id=self.tid(), ty=logty(ty)))

    def body(self, n, d, nest):
        mark, ml = len(self.vars), len(self.locals_)
        ss = self.block(n, d, nest)
        del self.vars[mark:]
        del self.locals_[ml:]
        return ss

    def s_if(self, d, nest):
        c = self.e(BOOL, d)
        a = self.body(self.r.choice([1, 2]), d, nest - 1)
        b = self.body(self.r.choice([1, 2]), d, nest - 1) if self.chance(0.4) else []
        return dict(k="if", c=c, a=a, b=b)

    def label(self, cont=True):
        self.nl += 1
        lab = "L%d" % self.nl
        self.loops.append([lab, self.level, cont, False])
        return lab

    def unlabel(self):
        lab, _, _, used = self.loops.pop()
        return used

    def times(self, n, f):
        self.cost *= n
        try:
            return f()
        finally:
            self.cost //= n

    def s_for(self, d, nest):
        if self.cost > 12:
            return None
        n = self.r.choice([1, 2, 3, 4])
        i = self.name("x")
        lab = self.label()
        mark = len(self.vars)
        down = self.chance(0.2)
        v = Var(i, INT, False, self.level, "loop")
        self.vars.append(v)
        b = self.times(n, lambda: self.body(self.r.choice([1, 2, 3]), d, nest - 1))
        del self.vars[mark:]
        used = self.unlabel()
        if down:
            return dict(k="for", l=lab, n=i, e=integer(n), s=integer(0), b=b, _lab=used, _down=1,
                        c=N("bin", BOOL, [("v", N("post", INT, [("r", var(i, INT))], by=-1)), ("v", integer(0))], o=">"))
        st = N("post" if self.chance(0.7) else "pre", INT, [("r", var(i, INT))], by=1)
        return dict(k="for", l=lab, n=i, e=integer(0), s=st, b=b, _lab=used, c=N("bin", BOOL, [("v", var(i, INT)), ("v", integer(n))], o="<"))

    def s_while(self, d, nest, do=False):
        if self.cost > 12:
            return None
        n = self.r.choice([1, 2, 3])
        w = self.name("w")
        lab = self.label()
        b = self.times(n, lambda: self.body(self.r.choice([1, 2]), d, nest - 1))
        used = self.unlabel()
        c = N("bin", BOOL, [("v", N("post", INT, [("r", var(w, INT))], by=-1)), ("v", integer(0))], o=">")
        if self.chance(0.3):
            c = dict(N("and", BOOL), c=c, b=self.e(BOOL, d), o="")
        return [dict(k="let", n=w, e=integer(n), _mut=True, _ty=INT), dict(k="dowhile" if do else "while", l=lab, c=c, b=b, _lab=used)]

    def s_dowhile(self, d, nest):
        return self.s_while(d, nest, True)

    def s_block(self, d, nest):
        lab = self.label(cont=False)
        b = self.body(self.r.choice([1, 2, 3]), d, nest - 1)
        used = self.unlabel()
        return dict(k="block", l=lab, b=b, _lab=used)

    def s_try(self, d, nest):
        self.trying += 1
        b = self.body(self.r.choice([2, 3]), d, nest - 1)
        self.trying -= 1
        ev = self.name("e")
        mark = len(self.vars)
        self.vars.append(Var(ev, STR, False, self.level))
        h = [self.expr(N("tr", STR, [("v", var(ev, STR))], id=self.tid(), ty=logty(STR)))] + self.body(self.r.choice([0, 1]), d, nest - 1)
        del self.vars[mark:]
        return dict(k="try", b=b, n=ev, h=h)

    def maybe(self, s):
        """jumps are usually conditional, so that what follows is reachable"""
        return dict(k="if", c=self.e(BOOL, 1), a=[s], b=[])

    def silent(self):
        return self.quiet or self.calm and not self.trying

    def s_throw(self, d):
        if self.silent():
            return None
        self.thrown = True
        return self.maybe(dict(k="throw", e=self.e(STR, 1)))

    def s_ret(self, d):
        if self.quiet or self.ret is None:
            return None
        return self.maybe(dict(k="ret", d=self.level - self.fnlevel, e=self.e(self.ret, d)))

    def s_brk(self, d):
        if self.quiet or not self.loops:
            return None
        inner = self.r.random() < 0.6
        idx = len(self.loops) - 1 if inner else self.r.randrange(len(self.loops))
        l = self.loops[idx]
        cont = l[2] and self.chance(0.5)
        # an anonymous jump goes to the innermost loop, which the statement blocks are not
        loops = [x for x in self.loops if x[2]]
        anon = bool(loops) and loops[-1] is l and l[1] == self.level and self.chance(0.6)
        if not anon:
            l[3] = True
        s = dict(k="cont" if cont else "brk", l=l[0], d=self.level - l[1], _lab=not anon)
        return self.maybe(s)

    def s_defer(self, d):
        if self.quiet:
            return None
        self.quiet += 1
        saved, self.loops = self.loops, []
        b = self.body(self.r.choice([1, 2]), 1, 0)
        if self.tidies and self.chance(0.7):
            nm, h, ret, _ = self.r.choice(self.tidies)
            a = self.args(h["_ps"], 1)
            if a is not None:
                c = self.expr(N("tr", ret, [("v", N("call", ret, a[0], f=nm, d=0))], id=self.tid(), ty=logty(ret)))
                b.insert(self.r.randrange(len(b) + 1), c if a[1] is None else dict(k="if", c=a[1], a=[c], b=[]))
        self.loops = saved
        self.quiet -= 1
        return dict(k="defer", w=self.r.choice(["all", "all", "ok", "err"]), b=b)

    def lambda_(self, ps, ret, d, nest):
        """a lambda over the helpers; ps: [(type, how)]"""
        self.nf += 1
        key = "lam%d" % self.nf
        self.level += 1
        mark, ml = len(self.vars), len(self.locals_)
        P = []
        for ty, how in ps:
            nm = self.name("a")
            P.append(dict(n=nm, m="r" if how == "ref" else "v", _ty=ty, _how=how))
            self.vars.append(Var(nm, ty, how != "let", self.level, "arg"))
        de = dict(ps=[dict(n=q["n"], m=q["m"]) for q in P], _ps=P)
        if ret is not None and self.chance(0.4):
            x = self.e(ret, d)
            de["_expr"] = x
            de["b"] = [dict(k="ret", d=0, e=x)]
        else:
            # continue in a lambda leaves the lambda, that is this statement list
            ss = self.body(self.r.choice([1, 2]), d, nest - 1)
            if ret is not None:
                ss = ss + [dict(k="ret", d=0, e=self.e(ret, d), _cont=1, _void=False)]
            de["b"] = ss
        del self.vars[mark:]
        del self.locals_[ml:]
        self.level -= 1
        self.fns[key] = de
        return N("lam", ("fn",), [], f=key, _def=de)

    def frozen(self, n, f):
        """with the variables of n immutable: the callee may well hold on to them"""
        if self.pf.refs:
            return f()
        names = used_vars(n)
        hit = [v for v in self.vars if v.name in names and v.mut]
        keep, self.locals_ = self.locals_, []
        for v in hit:
            v.mut = False
        try:
            return f()
        finally:
            self.locals_ = keep
            for v in hit:
                v.mut = True

    HELPERS = {
        "each": ([("n", INT, "let"), ("fn", None, "fn")], [(INT, "let")], None),
        "eacha": ([("a", ARR, "let"), ("fn", None, "fn")], [(INT, "let")], None),
        "eachr": ([("a", ARR, "ref"), ("fn", None, "fn")], [(INT, "ref")], None),
        "mapp": ([("a", ARR, "let"), ("fn", None, "fn")], [(INT, "let")], INT),
    }

    def s_lcall(self, d, nest):
        if self.cost > 8 or self.quiet:
            return None
        h = self.r.choice(["each", "each", "eacha", "eachr", "mapp"])
        lab = self.label(cont=False) if h != "mapp" else None
        saved = self.loops
        if h == "mapp":
            self.loops = []
        guard = None
        used_lab = False
        try:
            if h == "each":
                first = ("v", integer(self.r.randint(1, 3)))
                lam = self.times(3, lambda: self.lambda_([(INT, "let")], None, d, nest))
            elif h == "eacha":
                first = ("v", self.e(ARR, d))
                lam = self.frozen(first[1], lambda: self.times(3, lambda: self.lambda_([(INT, "let")], None, d, nest)))
            elif h == "eachr":
                lv = self.lval(ARR)
                if not lv:
                    return None
                n, guard, v = lv
                first = ("r", n)
                hidden = [x for x in self.vars if x.name == v.name]
                keep = self.vars
                self.vars = [x for x in keep if x.name != v.name]
                lam = self.times(3, lambda: self.lambda_([(INT, "ref")], None, d, nest))
                self.vars = keep
                del hidden
            else:
                first = ("v", self.e(ARR, d))
                lam = self.frozen(first[1], lambda: self.times(3, lambda: self.lambda_([(INT, "let")], INT, d, nest)))
        finally:
            if lab:
                used_lab = self.unlabel()
            self.loops = saved
        call = N("call", ARR if h == "mapp" else ("void",), [first, ("v", lam)], f=h, d=0, _nm=h)
        if h == "mapp":
            return self.expr(N("tr", ARR, [("v", call)], id=self.tid(), ty=logty(ARR)))
        return self.guarded(guard, dict(k="lcall", l=lab, e=call, _lab=used_lab))

    def s_localfn(self, d, nest):
        if self.quiet or self.level > 0 or self.loops:
            return None
        self.nf += 1
        key = "loc%d" % self.nf
        nm = "loc%d_%d" % (self.pid, self.nf)
        ret = self.r.choice([INT, INT, ARR, STR])
        de = self.define(ret, d, nest, nested=True)
        self.fns[key] = de
        self.locals_.append((nm, de, ret, self.level, key))
        return dict(k="localfn", _nm=nm, _def=de)

    # --- references and copies against writes to where they came from
    def enclosing(self, n):
        """what lies around a place: (node, type), from the variable inwards, without the place itself"""
        out = []
        while n["k"] in ("fld", "idx"):
            n = n["x"][0]["e"]
            out.append(n)
        return out[::-1]

    def write(self, n, d):
        """a statement that writes the place n as a whole, or resizes it"""
        ty = n["_ty"]
        r = self.r.random()
        if ty[0] == "a" and r < 0.65:
            o = self.r.choice(["push", "push", "unshift", "insert", "splice", "del", "clear", "shrink", "app", "cat", "cat", "grow", "pop", "shift"] + (["resize"] if ty == ARR else []))
            if o == "app":
                return self.expr(N("appasg", ty, [("r", n), ("v", self.e(ty[1], d))]))
            if o == "cat":
                return self.expr(N("catasg", ty, [("r", n), ("v", self.e(ty, d))]))
            if o == "grow":
                return self.expr(N("call", INT, [("r", n), ("v", self.e(ty[1], d))], f="grow_" + TAG[ty], d=0, _nm="grow_" + TAG[ty]))
            xs = {"push": lambda: [self.e(ty[1], d)], "unshift": lambda: [self.e(ty[1], d)], "insert": lambda: [integer(0), self.e(ty[1], d)],
                  "splice": lambda: [integer(0), integer(0), self.e(ty, d)], "del": lambda: [integer(0), integer(1)], "shrink": lambda: [integer(0)],
                  "resize": lambda: [integer(self.r.randint(0, 8))], "pop": list, "shift": list, "clear": list}[o]()
            s = self.expr(N("meth", ("void",), [("r", n)] + [("v", x) for x in xs], o=o))
            if o in ("del", "pop", "shift"):
                return dict(k="if", c=N("bin", BOOL, [("v", N("un", INT, [("v", n)], o="len")), ("v", integer(0))], o=">"), a=[s], b=[])
            return s
        if r < 0.75:
            lv = self.lval(ty)
            if lv and lv[1] is None and lv[2].name not in used_vars(n):
                return self.expr(N("swap", ("void",), [("r", n), ("r", lv[0])]))
        return self.expr(N("asg", ty, [("r", n), ("v", self.e(ty, d))]))

    def mostly(self, d):
        if self.chance(0.6):
            v = self.pick(ARR)
            if v:
                return N("bin", BOOL, [("v", N("un", INT, [("v", var(v.name, ARR))], o="len")), ("v", integer(self.r.choice([0, 0, 1])))], o=">=")
        return self.e(BOOL, d)

    def use(self, nm, ty, ref, d):
        n = var(nm, ty)
        r = self.r.random()
        if ref and r < 0.3 and ty == INT:
            return self.expr(N("opasg", INT, [("r", n), ("v", self.e(INT, d))], o="+"))
        if ref and r < 0.3 and ty[0] == "a":
            return self.expr(N("meth", ("void",), [("r", n), ("v", self.e(ty[1], d))], o="push"))
        if ref and r < 0.45:
            return self.expr(N("asg", ty, [("r", n), ("v", self.e(ty, d))]))
        return self.expr(N("tr", ty, [("v", n)], id=self.tid(), ty=logty(ty)))

    def s_dangle(self, d, nest):
        ty = self.r.choice([INT, INT, ARR, TS1, ARRS1, ARR])
        c = []
        for v in self.vars:
            if v.mut and v.kind not in ("loop", "fn"):
                c += [x for x in self.parts(var(v.name, v.ty), v.ty, ty, None, v) if any(y["_ty"][0] == "a" for y in self.enclosing(x[0]))]
        if not c:
            return None
        n, g, v = self.r.choice(c)
        around = self.enclosing(n)
        w = self.r.choice([y for y in around if y["_ty"][0] == "a"] if self.chance(0.7) else around)
        kind = self.r.choice(["ref", "ref", "let", "let", "mut"])
        ref = kind == "ref"
        if kind == "ref":
            self.legal = False
        nm = self.name({"ref": "r", "let": "c", "mut": "m"}[kind])
        how = self.r.random()
        m = "r" if ref else "v"
        src = n
        inner = n["x"][0]["e"] if n["k"] == "idx" else None
        wrap = (lambda y: y) if ref else (lambda y: N("get", ty, [("r", y)]))
        if inner is not None and inner["_ty"] in TAG and how < 0.25:
            f = "rat_" + TAG[inner["_ty"]]
            src = wrap(N("call", ty, [("r", inner), ("v", n["x"][1]["e"])], f=f, d=0, _nm=f))
        elif inner is not None and inner["_ty"] in TAG and how < 0.32:
            f = "radd_" + TAG[inner["_ty"]]
            src = wrap(N("call", ty, [("r", inner), ("v", self.e(ty, d))], f=f, d=0, _nm=f))
        elif ty in TAG and how < 0.5:
            lv = self.lval(ty, (v.name,))
            if lv and lv[1] is None and lv[2].kind not in ("loop",):
                if self.chance(0.5):
                    ab = [n, lv[0]] if self.chance(0.5) else [lv[0], n]
                    f = "rei_" + TAG[ty]
                    src = wrap(N("call", ty, [("r", ab[0]), ("r", ab[1]), ("v", self.mostly(d))], f=f, d=0, _nm=f))
                else:
                    src = dict(N("cond", ty), c=self.mostly(d), a=n, b=lv[0], o="")
        bind = dict(k="ref", n=nm, e=src) if ref else dict(k="let", n=nm, e=src, _mut=kind == "mut", _ty=ty)
        mark, ml = len(self.vars), len(self.locals_)

        def use():
            return self.use(nm, ty, ref or (kind == "mut" and self.chance(0.5)), d)

        route = self.r.choice(["plain", "plain", "if", "break", "loop", "loopbreak", "deferw", "deferu", "lambda", "local", "local", "arg", "alias", "try", "first", "else", "call"])
        pre, body = [], []
        if route == "local":
            self.nf += 1
            key, loc = "loc%d" % self.nf, "loc%d_%d" % (self.pid, self.nf)
            mv, self.level = len(self.vars), self.level + 1
            de = dict(ps=[], _ps=[], b=[self.write(w, d), dict(k="ret", d=0, e=self.e(INT, 0))], _ret=INT, _throws=False)
            self.level -= 1
            del self.vars[mv:]
            self.fns[key] = de
            pre = [dict(k="localfn", _nm=loc, _def=de)]
            hit = self.expr(N("call", INT, [], f=key, d=1, _nm=loc))
            body = [bind, use(), hit if self.chance(0.6) else dict(k="if", c=self.mostly(d), a=[hit], b=[]), use()]
        elif route == "lambda":
            if self.cost > 8:
                return None
            self.nf += 1
            key = "lam%d" % self.nf
            self.level += 1
            a = self.name("a")
            P = [dict(n=a, m="v", _ty=INT, _how="let")]
            b = [self.write(w, d)]
            if self.chance(0.5):
                b = [use()] + b
            self.fns[key] = dict(ps=[dict(n=a, m="v")], _ps=P, b=b)
            self.level -= 1
            lam = N("lam", ("fn",), [], f=key, _def=self.fns[key])
            call = dict(k="lcall", l="L0", e=N("call", ("void",), [("v", integer(self.r.choice([1, 2]))), ("v", lam)], f="each", d=0, _nm="each"), _lab=False)
            body = [bind, use(), call, use()]
        elif route in ("break", "loopbreak", "loop"):
            self.nl += 1
            lab = "L%d" % self.nl
            brk = dict(k="brk", l=lab, d=0, _lab=True)
            if route == "break":
                body = [dict(k="block", l=lab, b=[bind, dict(k="if", c=self.mostly(d), a=[self.write(w, d), brk], b=[]), use()], _lab=True)]
            else:
                i = self.name("x")
                hit = dict(k="if", c=self.mostly(d), a=[self.write(w, d)] + ([brk] if route == "loopbreak" else []), b=[])
                inside = [use(), hit] if self.chance(0.7) else [hit, use()]
                late = self.chance(0.3)   # bound anew in each iteration
                loop = dict(k="for", l=lab, n=i, e=integer(0), s=N("post", INT, [("r", var(i, INT))], by=1), b=([bind] if late else []) + inside, _lab=True,
                            c=N("bin", BOOL, [("v", var(i, INT)), ("v", integer(2))], o="<"))
                if late:
                    # what is bound has to be there in each iteration
                    if g is not None:
                        loop["b"] = [dict(k="if", c=g, a=loop["b"], b=[])]
                    body = [loop]
                else:
                    body = [bind, loop]
        elif route == "deferw":
            body = [dict(k="defer", w="all", b=[self.write(w, d)]), bind, use()]
        elif route == "deferu":
            body = [bind, dict(k="defer", w="all", b=[use()]), self.write(w, d)]
        elif route == "arg":
            blk = N("blk", INT, [("v", self.e(INT, 0))], b=[self.write(w, d)])
            if ref and ty == INT:
                body = [bind, self.expr(N("opasg", INT, [("r", var(nm, INT)), ("v", blk)], o="+")), use()]
            else:
                body = [bind, self.expr(N("tr", ARR, [("v", N("arr", ARR, [("v", self.e(INT, 0)), ("v", blk)]))], id=self.tid(), ty=logty(ARR))), use()]
        elif route == "alias":
            q = self.name("q")
            body = [bind, dict(k="ref", n=q, e=w), self.write(var(q, w["_ty"]), d), use()]
            if self.chance(0.4):
                body = [body[1], body[0]] + body[2:]
            self.legal = False
        elif route == "try":
            ev = self.name("e")
            seen = self.expr(N("tr", STR, [("v", var(ev, STR))], id=self.tid(), ty=logty(STR)))
            body = [bind, dict(k="try", b=[self.write(w, d), dict(k="if", c=self.mostly(d), a=[dict(k="throw", e=self.e(STR, 0))], b=[]), use()], n=ev,
                               h=[seen, use()] if self.chance(0.5) else [seen])]
        elif route == "call" and w["_ty"] in TAG and TAG[w["_ty"]] in ("a", "aa", "as") and ty in (INT, ARR, TS1) and w["_ty"] == ("a", ty):
            # both go to one function, which writes one and reads the other
            f = "both_" + TAG[w["_ty"]]
            body = [bind, self.expr(N("call", INT, [("r" if ref else "v", var(nm, ty)), ("r", w)], f=f if ref else f + "_v", d=0, _nm=f if ref else f + "_v")), use()]
        elif route == "else":
            body = [bind, dict(k="if", c=self.mostly(d), a=[self.write(w, d)], b=[use()])]
        elif route == "first":
            body = [bind, use(), self.write(w, d)]
        elif route == "if":
            body = [bind, use(), dict(k="if", c=self.mostly(d), a=[self.write(w, d)] + ([self.s_tr(0)] if self.chance(0.3) else []), b=[]), use()]
        else:
            body = [bind, self.write(w, d), use()]
            if self.chance(0.5):
                body.insert(1, use())
        del self.vars[mark:]
        del self.locals_[ml:]
        if g is None:
            g = boolean(True)
        return pre + [dict(k="if", c=g, a=body, b=[])]

    def define(self, ret, d, nest, nested=False, must=()):
        """a function definition"""
        keep = (self.vars, self.loops, self.level, self.fnlevel, self.ret, self.locals_, self.cost, self.trying)
        if nested:
            self.vars = list(self.vars)
            self.level += 1
            self.locals_ = list(self.locals_)
        else:
            self.vars, self.level, self.locals_ = [], 0, []
        self.fnlevel = self.level
        self.loops, self.ret, self.cost, self.trying = [], ret, 4, 0
        thrown, self.thrown = self.thrown, False
        P = []
        for _ in range(self.r.choice([0, 1, 1, 2, 2, 3])):
            ty, how = self.ty(), self.r.choice(["let", "let", "mut", "ref", "ref"])
            nm = self.name("p")
            P.append(dict(n=nm, m="r" if how == "ref" else "v", _ty=ty, _how=how))
            self.vars.append(Var(nm, ty, how != "let", self.level, "arg"))
        ss = []
        for w in self.r.sample(must, len(must)):
            if self.chance(0.8):
                s = self.s_defer(d)
                ss.append(dict(s, w=w) if s else self.s_tr(1))
        ss += self.block(self.r.randint(1, 3), d, nest)
        # every parameter is read somewhere: see DESIGN.md, unused arguments
        for q in P:
            t = self.expr(N("tr", q["_ty"], [("v", var(q["n"], q["_ty"]))], id=self.tid(), ty=logty(q["_ty"])))
            ss = [t] + ss if self.pf.refs or self.chance(0.6) else ss + [t]
        ss = ss + [dict(k="ret", d=0, e=self.e(ret, d))]
        throws, self.thrown = self.thrown, thrown
        (self.vars, self.loops, self.level, self.fnlevel, self.ret, self.locals_, self.cost, self.trying) = keep
        return dict(ps=[dict(n=q["n"], m=q["m"]) for q in P], b=ss, _ps=P, _ret=ret, _throws=throws)

    def block(self, n, d, nest=0):
        ss = []
        w = dict(self.pf.w)
        names = list(w)
        tries = 0
        while len(ss) < n and tries < n * 12:
            tries += 1
            k = self.r.choices(names, [w[x] for x in names])[0]
            if k in ("if_", "for_", "while_", "dowhile", "block", "try_", "lcall", "localfn"):
                if nest <= 0:
                    continue
                s = getattr(self, "s_" + k.rstrip("_"))(d, nest)
            elif k == "ref" and nest <= 0:
                continue
            else:
                s = getattr(self, "s_" + k.rstrip("_"))(d)
            if s is None:
                continue
            ss += s if isinstance(s, list) else [s]
        return ss or [self.s_tr(1)]

    def program(self):
        pf = self.pf
        for _ in range(self.r.randint(*pf.tidy) if pf.tidy[1] else 0):
            self.calm = True
            ret = self.r.choice([INT, BOOL, STR])
            de = dict(self.define(ret, 1, pf.nest - 1, must=["ok", "err"]), _throws=False)
            self.calm = False
            self.nf += 1
            nm = "f%d" % self.nf
            self.fns[nm] = de
            self.tidies.append((nm, de, ret, self.r.choice(["noinline ", "", "inline "])))
            self.heads.append(self.tidies[-1])
        for _ in range(self.r.randint(*pf.fns)):
            ret = self.r.choice([INT, INT, ARR, STR, TS1, BOOL])
            de = self.define(ret, max(1, pf.depth - 1), pf.nest - 1)
            self.nf += 1
            nm = "f%d" % self.nf
            self.fns[nm] = de
            self.heads.append((nm, de, ret, self.r.choice(["noinline ", "noinline ", "", "inline "])))
        self.vars, self.level, self.fnlevel, self.loops, self.locals_ = [], 0, 0, [], []
        self.ret = None
        ss = []
        for ty in (INT, ARR, self.ty(), self.ty()) + ((self.r.choice([ARR2, ARRS1, TS2]),) if pf.dangle[1] else ()):
            v = Var(self.name(), ty, True, 0)
            ss.append(dict(k="let", n=v.name, e=self.nonempty(ty), _mut=True, _ty=ty))
            self.vars.append(v)
        ss += self.block(self.r.randint(*pf.stmts), pf.depth, pf.nest)
        for _ in range(self.r.randint(*pf.dangle)):
            for _ in range(9):
                s = self.s_dangle(1, 1)
                if s:
                    ss += s
                    break
        for v in self.vars:
            if v.kind == "local":
                ss.append(self.expr(N("tr", v.ty, [("v", var(v.name, v.ty))], id=self.tid(), ty=logty(v.ty))))
        used = self.helpers_used(ss) | set().union(*[self.helpers_used(f["b"]) for f in self.fns.values()]) if self.fns else self.helpers_used(ss)
        fns = dict(self.fns)
        for h in used:
            fns[h] = HELPER_AST[h]
        fns["none"] = dict(ps=[], b=[])
        pr = Program(self.pid, ss, fns, self.heads, self.r)
        pr.legal = self.legal
        return pr

    def nonempty(self, ty):
        n = self.leaf(ty)
        while n["k"] == "lit" and not n["v"] or n["k"] == "var":
            n = self.leaf(ty)
        return n

    def helpers_used(self, x):
        out = set()
        if isinstance(x, dict):
            if x.get("k") == "call" and x["f"] in HELPER_AST:
                out.add(x["f"])
            for k, v in x.items():
                if k != "_def":
                    out |= self.helpers_used(v)
        elif isinstance(x, list):
            for v in x:
                out |= self.helpers_used(v)
        return out


def mentions(x, key):
    """calls the function"""
    if isinstance(x, dict):
        return x.get("f") == key or any(mentions(v, key) for v in x.values())
    return isinstance(x, (list, tuple)) and any(mentions(v, key) for v in x)


def used_vars(x):
    out = set()
    if isinstance(x, dict):
        if x.get("k") == "var":
            out.add(x["n"])
        for v in x.values():
            out |= used_vars(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            out |= used_vars(v)
    return out


def _helper(kind):
    i, a, r = var("hi", INT), var("ha", ARR), var("hr", ARR)
    inc = N("post", INT, [("r", i)], by=1)
    if kind == "each":
        n = var("hn", INT)
        cond = N("bin", BOOL, [("v", i), ("v", n)], o="<")
        call = N("call", ("void",), [("v", i)], f="hf", d=0, _nm="hf")
        ps = [dict(n="hn", m="v"), dict(n="hf", m="v")]
    else:
        cond = N("bin", BOOL, [("v", i), ("v", N("un", INT, [("v", a)], o="len"))], o="<")
        it = N("idx", INT, [("v", a), ("v", i)])
        call = N("call", ("void",), [("r" if kind == "eachr" else "v", it)], f="hf", d=0, _nm="hf")
        ps = [dict(n="ha", m="r" if kind == "eachr" else "v"), dict(n="hf", m="v")]
    st = dict(k="expr", e=call)
    if kind == "mapp":
        st = dict(k="expr", e=N("appasg", ARR, [("r", r), ("v", call)]))
    loop = dict(k="for", l="HL", n="hi", e=integer(0), s=inc, b=[st], c=cond)
    b = [loop]
    if kind == "mapp":
        b = [dict(k="let", n="hr", e=N("arr", ARR))] + b + [dict(k="ret", d=0, e=r)]
    return dict(ps=ps, b=b)


def _refs(ty):
    """functions that return references, and ones that write through them: (name, definition, source)"""
    a, i, x, c, b = var("ja", ("a", ty)), var("ji", INT), var("jx", ty), var("jc", BOOL), var("jb", ty)
    T, e, tag = fty(ty), TAG.get(("a", ty)), TAG.get(ty)
    out = []

    def add(nm, ps, ss, src):
        out.append((nm, dict(ps=[dict(n=p[0], m=p[1]) for p in ps], b=ss), src))

    def ret(n, m="r"):
        return dict(k="ret", d=0, e=n, m=m)
    if e:
        last = N("idx", ty, [("v", a), ("v", N("bin", INT, [("v", N("un", INT, [("v", a)], o="len")), ("v", integer(1))], o="-"))])
        app = dict(k="expr", e=N("appasg", ("a", ty), [("r", a), ("v", x)]))
        add("rat_" + e, [("ja", "r"), ("ji", "v")], [ret(N("idx", ty, [("v", a), ("v", i)]))],
            "noinline fn rat_%s(ref a: %s[], i: i32) { return a[i]; }" % (e, T))
        add("radd_" + e, [("ja", "r"), ("jx", "v")], [app, ret(last)],
            "noinline fn radd_%s(ref a: %s[], x: %s) { a ~= x; return a[a.len - 1]; }" % (e, T, T))
        add("grow_" + e, [("ja", "r"), ("jx", "v")], [app, ret(N("un", INT, [("v", a)], o="len"), "v")],
            "fn grow_%s(ref a: %s[], x: %s): i32 { a ~= x; return a.len; }" % (e, T, T))
        tr = dict(k="expr", e=N("tr", ty, [("v", x)], id=999, ty=logty(ty)))
        for how, m in (("", "r"), ("_v", "v")):
            add("both_" + e + how, [("jx", m), ("ja", "r")], [tr, app, tr, ret(N("un", INT, [("v", a)], o="len"), "v")],
                "noinline fn both_%s%s(implicit lax ref log: i32[], %sx: %s, ref a: %s[]): i32 { tr(999, x); a ~= x; tr(999, x); return a.len; }" % (e, how, "ref " if m == "r" else "", T, T))
    if tag:
        add("rei_" + tag, [("jx", "r"), ("jb", "r"), ("jc", "v")], [dict(k="if", c=c, a=[ret(x)], b=[]), ret(b)],
            "fn rei_%s(ref a: %s, ref b: %s, c: bool) { if (c) return a; return b; }" % (tag, T, T))
    return out


TAG = {INT: "i", ARR: "a", ARR2: "aa", TS1: "s", ARRS1: "as"}
REFS = [x for ty in (INT, ARR, TS1) for x in _refs(ty)]
HELPER_AST = {k: _helper(k) for k in ("each", "eacha", "eachr", "mapp")}
HELPER_AST.update({nm: de for nm, de, _ in REFS})
HELPER_SRC = """
fn each(n: i32, visit) { for (mut i = 0; i < n; i++) visit(i); }
fn eacha(a: i32[], visit) { for (mut i = 0; i < a.len; i++) visit(a[i]); }
fn eachr(ref a: i32[], visit) { for (mut i = 0; i < a.len; i++) visit(a[i]); }
fn mapp(a: i32[], f) { mut r: i32[]; for (mut i = 0; i < a.len; i++) r ~= f(a[i]); return r; }
"""
REFS_SRC = "\n".join(src for _, _, src in REFS) + "\n"


class Program:
    def __init__(self, pid, main, fns, heads, rng):
        self.pid, self.main, self.fns, self.heads, self.rng = pid, main, fns, heads, rng

    def source(self):
        """the program's functions; the entry point is p<pid>_main"""
        s = Src(self.pid, self.rng)
        out = []
        for nm, de, ret, mod in self.heads:
            ps = "".join(", " + s.param(q) for q in de["_ps"])
            out.append("%sfn %s(implicit lax ref log: i32[]%s): %s {\n%s\n}" % (mod, s.fname(nm), ps, fty(ret), s.stmts(de["b"], 1)))
        out.append("noinline fn p%d_main(implicit lax ref log: i32[]) {\n%s\n}" % (self.pid, s.stmts(self.main, 1)))
        return "\n".join(out) + "\n"

    def model(self, log, end):
        t = Flat()
        fns = {k: dict(ps=clean(v["ps"]), b=t.stmts(v["b"])) for k, v in self.fns.items()}
        main = t.stmts(self.main)
        return dict(fns=fns, main=main, n=t.nodes, log=log, end=end)


def generate(pid, rng, profile):
    return Gen(pid, rng, PROFILES[profile]).program()
