"""C13-C16: random programs against FuMachine.tla."""
import os

from vf.common import SEED, CheckError, base_env, compile_fu, pick, run, scratch, parallel
from vf.lang import run as lang

# Small programs with the output that the language calls for. Those that come out differently on the
# unchanged tree are listed in known_findings.json under their key.
FIXED = {
    "C13": [
        ("arrlit-move", """
noinline fn total(a: i32[][]): i32 { mut s = 0; for (mut i = 0; i < a.len; i++) s = s * 10 + a[i].len; return s; }
noinline fn f(mut p: i32[]): i32 { p ~= 1; return total([p, p, p]); }
fn main() { println("" ~ f([1])); return 0; }""", "222"),
        ("small-array-stores", """
noinline fn f(a: i32[], mut b: i32[]): i32 { b[0]++; let c = a ~ b; b[0]++; let d = a ~ b; return c[c.len - 3] * 10 + d[d.len - 3]; }
fn main() { println("" ~ f([1, 2, 3], [1, 2, 3])); return 0; }""", "23"),
        ("mut-value-aliases-ref", """
noinline fn a(mut p1: i32[], ref p2: i32[]): i32 { p2[0] = 9; return p1[0]; }
noinline fn b(mut p1: i32[], ref p2: i32[]): i32 { p2[0] = 7; p2[1] = 8; return p1[1]; }
fn main() { mut v = [4, 5, 6, 7]; let x = a(v, v); let y = b(v, v); println("" ~ (x * 10 + y)); return 0; }""", "45"),
        ("copy-by-mutable-view", """
noinline fn f(lax mut p1: i32[], ref p2: i32[]): i32 { if (p2.len > 0) ++p2[0]; return p1[0]; }
noinline fn g(mut p1: i32[], ref p2: i32[]): i32 { p1[1]++; if (p2.len > 0) ++p2[0]; return p1[0]; }
fn main() { mut v = [4, 5, 6, 7, 8, 9]; let a = f(v, v); let b = g(v, v); println("" ~ (a * 100 + b * 10 + v[0])); return 0; }""", "456"),
    ],
    "C14": [
        ("catch-hoist", """
inline fn twice(fn) { fn(1); fn(2); }
fn main() {
    mut s = "";
    twice(|i| { try { throw("e" ~ i); } catch (e) { s ~= e; } });
    println(s);
    return 0;
}""", "e1e2"),
        ("do-while", """
noinline fn f(mut n: i32): i32 {
    mut s = 0;
    do { lax mut x = 0; } while (n-- > 0);
    :OUT do { for (mut i = 0; i < 9; i++) { s++; if (i == 4) break :OUT; } } while (s < 100);
    return s * 10 - n;
}
fn main() { println("" ~ f(3)); return 0; }""", "51"),
    ],
    "C15": [
        ("prints-in-order", """
noinline fn f(i: i32): i32 { println(i.str); return i; }
noinline fn t(i: i32): string { if (i > 3) throw("t" ~ i); return "" ~ i; }
noinline fn add(a: i32, b: i32, c: i32): i32 { return a * 100 + b * 10 + c; }
fn main() {
    let v = [[1, 2], [3, 4, 5], [6, 7, 8, 9]];
    let a = add(f(1), f(2), f(3));
    let s = "" ~ f(4) ~ f(5) ~ f(6);
    let x = v[f(1) + f(0)][f(1)];
    try { println(t(4) ~ t(5)); } catch (e) { println(e); }
    println("" ~ a ~ s ~ x);
    return 0;
}""", "1|2|3|4|5|6|1|0|1|t4|1234564"),
        ("double-minus", """
noinline fn f(mut a: i32): i32 { a++; let r = -(-a); let q = +(+a); return a * 100 + r * 10 + q; }
fn main() { println("" ~ f(2)); return 0; }""", "333"),
    ],
    "C16": [
        ("capture-by-value", """
fn main() {
    mut v = 1;
    fn bump(ref p: i32): i32 { p++; return v; }
    let a = bump(v);
    println("" ~ a);
    return 0;
}""", "2"),
    ],
    "C19": [
        ("self-assign-debug", """
noinline fn set(ref v: i32[][], i: i32, j: i32) { v[i] = v[j]; }
fn main() {
    mut v = [[1, 2], [3, 4, 5, 6, 7, 8, 9, 1, 2, 3]];
    set(v, 0, 0); set(v, 1, 1); v[1] = v[1];
    println("" ~ v[0].len ~ v[1].len ~ v[1][9]);
    return 0;
}""", "2103"),
    ],
}

SCHEMES = ["", "--debug", "--reldeb", "--retail"]
SALT = {"C19": 7700}    # other programs than those of C13-C16


def fixed(ck, tmp):
    schemes = SCHEMES if ck.pid == "C19" else [""]

    def one(job):
        (key, src, want), scheme = job
        path, exe = [os.path.join(tmp, "fixed-%s%s%s" % (key, scheme, x)) for x in (".fu", "")]
        with open(path, "w") as f:
            f.write(src)
        ok, out = compile_fu(path, exe, extra=["--cflags", "-w"], must=False, scheme=[x for x in [scheme] if x])
        if not ok:
            got = "does not build: " + lang.message(out)
        else:
            r = run([exe], timeout=20, env=base_env())
            got = "|".join(x for x in r.out.decode("latin1").strip().split("\n") if "  STAT: " not in x) if r.ok else "rc %s" % r.rc
        if got != want:
            ck.violation("fixed/" + key, "%s: the program writes %s, not %s" % (key, got[:300], want), {"source": src, "expected": want, "got": got})

    cases = [(c, s) for c in FIXED.get(ck.pid, []) for s in schemes]
    parallel(one, cases)
    return len(cases)


def campaigns(ck, runs, turned_away):
    """runs: [(profile, programs, flavour) or (.., scheme)]; turned_away: the highest credible share of rejected programs"""
    n = {"ok": 0, "skip": 0, "rejected": 0, "running": 0}
    samples = []
    with scratch("lang") as tmp:
        nf = fixed(ck, tmp)
        for profile, total, flavour, *scheme in runs:
            mine, refused = {"ok": 0, "skip": 0, "rejected": 0, "running": 0}, []
            for r in lang.campaign(profile, total, SEED + SALT.get(ck.pid, 0), tmp, flavour, scheme):
                kind = "rejected" if r.kind == "cxx" else r.kind
                if kind in mine:
                    mine[kind] += 1
                    if kind == "rejected" and r.prog.legal:
                        refused.append(r)
                    if kind == "ok" and len(samples) < 2 and len(r.real[0]) > 10:
                        samples.append({"program": r.prog.source()[:700], "wrote": r.real[0][:40]})
                    continue
                ck.violation("/".join([profile, kind, str(r.prog.pid)] + scheme + [flavour] * (flavour == "printed")),
                             {"bad": "the program does not do what FuMachine does",
                              "dangling": "the compiler accepted a program that uses a reference after what it names is gone",
                              "crash": "the program (or the compiler) crashes"}.get(kind, kind) + ": " + r.what[:400], dict(r.replay(), profile=profile, scheme=scheme))
            share = turned_away[profile]
            if len(refused) > share * total or mine["rejected"] > max(share, 0.5) * total:
                ck.violation("%s/turned-away" % profile, "%d of %d programs do not build, among them %d that are plainly well-formed" % (mine["rejected"], total, len(refused)),
                             {"profile": profile, "counts": mine, "refused": [x.replay() for x in refused[:3]]})
            if mine["skip"] + mine["running"] > 0.1 * total:
                raise CheckError("%s: the model leaves too much out: %s" % (profile, mine))
            for k in n:
                n[k] += mine[k]
    return ck.finish({
        "programs": sum(r[1] for r in runs), "traces_validated_against_impl": n["ok"], "samples": samples, "not_built": n["rejected"],
        "beyond_the_model": n["skip"] + n["running"], "fixed_programs": nf},
        ["integers stay within a million (TLC has 32-bit integers)", "arrays are indexed within bounds (unchecked in release builds)",
         "nothing is thrown out of a defer (which terminates the program)"])


def c13(ck):
    return campaigns(ck, [("values", pick(800, 8000), "plain")], {"values": 0.05})


def c14(ck):
    return campaigns(ck, [("control", pick(800, 8000), "plain"), ("unwind", pick(400, 8000), "plain")], {"control": 0.05, "unwind": 0.05})


def c15(ck):
    return campaigns(ck, [("order", pick(700, 8000), "plain"), ("order", pick(300, 4000), "printed"), ("control", pick(150, 2000), "printed"), ("values", pick(150, 2000), "printed")],
                     {"order": 0.06, "control": 0.05, "values": 0.05})


def c16(ck):
    return campaigns(ck, [("dangle", pick(800, 10000), "plain"), ("borrow", pick(300, 4000), "plain"), ("dangle", pick(150, 3000), "asan")],
                     {"dangle": 0.03, "borrow": 0.15})


def c19(ck):
    share = {"values": 0.05, "control": 0.05, "order": 0.06, "dangle": 0.04, "borrow": 0.15}
    runs = [(p, pick(n, 20 * n), "plain", s) for s in SCHEMES[1:] for p, n in [("values", 150), ("control", 100), ("order", 100), ("dangle", 100), ("borrow", 50)]]
    return campaigns(ck, runs, share)
