"""C22: what the functions on arrays and texts (prelude, lib/ascii.fu, lib/unicode.fu, decimals) compute, against Text.tla."""
from vf.common import parallel, pick, rng, scratch
from vf.fulib import driver, guarded
from vf.sets import validate

NAMES = ["find", "find1", "finds", "find1s", "findse", "find1se", "has", "has1", "starts", "starts1", "ends", "ends1",
         "split", "split1", "join", "join1", "join0", "replace", "replaceA1", "replaceA0", "replace1A", "replace10",
         "cmp", "eq", "ne", "lt", "gt", "le", "ge", "sort", "sortby", "sortpart", "reverse", "revpart", "partition", "removeif",
         "map", "all", "some", "first", "last", "only", "exists", "ensure", "removeat", "stealfrom", "steal", "resize",
         "upper", "lower", "toupper", "tolower", "letter", "trim", "utf8", "points",
         "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f64"]
OP = {o: n for n, o in enumerate(NAMES)}
INTS, BYTES, STRINGS = 0, 1, 2
SEARCH = NAMES[:22] + ["cmp", "eq", "ne"]
BYTES_ONLY = ["lt", "gt", "le", "ge"]
ANY = [o for o in NAMES[:48] if o not in BYTES_ONLY + ["removeif", "ensure"]]
UNJOINED = [o for o in ANY if o not in ("join", "join1", "join0")]


def row(o, t, a, b=(), c=0, x=0, y=0):
    return [OP[o], t, len(a)] + list(a) + [len(b)] + list(b) + [c, x, y]


def arrays(r):
    """one call of something generic on arrays of a few different elements, so that parts of them recur"""
    t = r.choice([INTS, BYTES, BYTES, STRINGS])
    o = r.choice({INTS: ANY + ["ensure"], BYTES: ANY + BYTES_ONLY * 2, STRINGS: UNJOINED}[t])
    span = r.choice([1, 2, 2, 3, 5, 256])
    base = r.choice([0, 97, 0 if t != BYTES else 126])
    el = lambda: min(255, base + r.randrange(span))
    n = r.choice([0, 1, 2, 3, 5, 8, 8, 12, 17, r.randrange(40)] + ([r.randrange(60, 130)] if o in ("sort", "sortby", "sortpart", "reverse", "partition") else []))
    a = [el() for _ in range(n)]
    kind = r.randrange(5)
    if kind < 3 and n:                                      # a part of it, and that with something else in it
        i = r.randrange(n)
        b = a[i:i + r.choice([1, 2, 2, 3, 4, 7])]
        if kind == 1:
            b[r.randrange(len(b))] = el()
        if o in ("starts", "ends", "cmp", "eq", "ne", "lt", "gt", "le", "ge") and r.randrange(2):
            b = a[:len(b)] if o != "ends" else a[n - len(b):]
            if o not in ("starts", "ends"):
                b = list(a)
                if r.randrange(3):
                    b[r.randrange(n)] = el()
    elif kind == 3:
        b = []
    else:
        b = [el() for _ in range(r.randrange(5))]
    x, y = sorted((r.randrange(n + 1), r.randrange(n + 1)))
    if o in ("exists", "ensure"):
        x = r.randrange(n + 4)
    if o == "resize":
        x = r.randrange(n + 6)
    return row(o, t, a, b, r.choice(a) if a and r.randrange(3) else el(), x, y)


def utf8(c):
    return list(chr(c).encode("utf8", "surrogatepass")) if c <= 0x10ffff else []


def texts(r):
    o = r.choice(NAMES[48:56] + ["points", "points", "trim"])
    n = r.choice([0, 1, 2, 3, 6, 12])
    if o in ("trim",):
        blank = lambda: [r.choice([32, 32, 9, 10, 13, 0, 31]) for _ in range(r.choice([0, 0, 1, 3]))]
        a = blank() + [r.choice([32, 33, 97, 65, 127, 128, 160, 195, 255]) for _ in range(n)] + blank()
        return row(o, BYTES, a)
    if o == "points":
        a = []
        for _ in range(n):
            a += utf8(r.choice([r.randrange(128), r.randrange(0x80, 0x800), r.randrange(0x800, 0x10000), r.randrange(0x10000, 0x110000), 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff]))
        for _ in range(r.choice([0, 0, 1, 1, 2])):          # broken somewhere
            if a:
                i = r.randrange(len(a))
                k = r.randrange(4)
                if k == 0:
                    a[i] = r.randrange(256)
                elif k == 1:
                    del a[i]
                elif k == 2:
                    a.insert(i, r.choice([0x80, 0xbf, 0xc0, 0xdf, 0xe0, 0xef, 0xf0, 0xf7, 0xf8, 0xff, 65]))
                else:
                    del a[i:]
        return row(o, BYTES, a)
    if o == "utf8":
        return row(o, BYTES, [], [], 0, r.choice([r.randrange(0x800), r.randrange(0x10000), r.randrange(0x110000), r.randrange(0x120000), 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x110000]))
    return row(o, BYTES, [r.choice([r.randrange(256), r.choice([64, 65, 90, 91, 96, 97, 122, 123]), r.choice([193, 225, 218, 250])]) for _ in range(n)], [], r.randrange(256))


def limbs(v):
    v &= (1 << 64) - 1
    return [v >> (16 * k) & 0xffff for k in range(4)]


def decimals(r):
    o = r.choice(NAMES[56:])
    if o == "f64":
        m = r.choice([0, 1, 3, 2**53 - 1, 2**52, r.getrandbits(53), r.getrandbits(20), 10**15, 5**20])
        x = r.choice([0, 1, 6, 6, r.randrange(80), r.randrange(150, 230), r.randrange(970)])
        y = r.randrange(2)
        return row(o, INTS, limbs(m), limbs(m), 0, x, y)
    bits = int(o[1:])
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if o[0] == "i" else (0, (1 << bits) - 1)
    near = 10 ** r.randrange(20) + r.randrange(-1, 2)
    v = r.choice([lo, lo + 1, hi, hi - 1, 0, 1, near, -near, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1) >> r.randrange(bits)])
    v = min(hi, max(lo, v))
    return row(o, INTS, limbs(v), limbs(v))


def label(h):
    return "calls"


@guarded
def c22(ck):
    parallel(lambda f: driver("text_ops", f), ["plain", "asan"])
    with scratch("text") as tmp:
        batches = []
        for n in range(pick(24, 300)):
            r = rng("text", n)
            hs = []
            for _ in range(30):
                what = r.choice([arrays, arrays, arrays, texts, decimals])
                rows = [what(r) for _ in range(40)]
                hs.append([len(rows)] + [v for x in rows for v in x])
            batches.append(("t%d" % n, "asan" if n % 3 == 0 else "plain", hs))
        calls, samples = validate(ck, "TextTrace", "text_ops", batches, tmp, label)
    return ck.finish({"traces_validated_against_impl": sum(len(b[2]) for b in batches), "recorded_steps_validated": calls, "samples": samples[:2]},
                     ["arrays of up to 130 elements", "fractions that six digits hold exactly"])


# --- paths ---

PATHS = ["ext", "noext", "dirname", "filename", "normalize", "join", "relative"]


def path(r):
    ps = [r.choice(["a", "a", "b", "ab", "..", "..", ".", "", "a.b", ".a", "a.", "...", "..a"]) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 6]))]
    return r.choice(["", "", "/"]) + "/".join(ps) + r.choice(["", "", "/"])


def path_call(r):
    o = r.choice(PATHS + ["normalize", "join", "relative"])
    a, b = path(r), path(r)
    if o == "relative":                     # between places named in the shortest words, and below a common one
        abs_ = r.randrange(2)
        near = [r.choice("ab") for _ in range(r.randrange(4))]
        lead = "/" if abs_ else "../" * r.choice([0, 0, 1, 2])
        name = lambda: lead + "/".join(near[:r.randrange(len(near) + 1)] + [r.choice(["a", "b", "ab", "a.b"]) for _ in range(r.randrange(1, 4))]) + r.choice(["", "", "/"])
        a, b = name(), name()
    return [PATHS.index(o), len(a)] + list(a.encode()) + [len(b)] + list(b.encode())


@guarded
def c23(ck):
    parallel(lambda f: driver("path_ops", f), ["plain", "asan"])
    with scratch("path") as tmp:
        batches = []
        every = [""]
        for _ in range(pick(6, 8)):                         # every short path of these characters
            every += [p + c for p in every if len(p) == len(every[-1]) for c in "./a"]
        for n in range(pick(16, 200)):
            r = rng("path", n)
            hs = []
            for _ in range(30):
                rows = [path_call(r) for _ in range(40)]
                hs.append([len(rows)] + [v for x in rows for v in x])
            batches.append(("p%d" % n, "asan" if n % 3 == 0 else "plain", hs))
        calls = [[PATHS.index(o), len(p)] + list(p.encode()) + [0] for p in every for o in PATHS[:5]]
        for n in range(0, len(calls), 2000):
            part = calls[n:n + 2000]
            hs = [[len(part[k:k + 100])] + [v for x in part[k:k + 100] for v in x] for k in range(0, len(part), 100)]
            batches.append(("e%d" % n, "plain", hs))
        steps, samples = validate(ck, "PathTrace", "path_ops", batches, tmp, label)
    return ck.finish({"traces_validated_against_impl": sum(len(b[2]) for b in batches), "recorded_steps_validated": steps, "short_paths": len(every), "samples": samples[:2]},
                     ["relative is asked about paths in normal form that both start at the root, or go up equally far"])
