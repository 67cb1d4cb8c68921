"""Drivers written in fu: built by the compiler under test, run on scripts, answering in JSON lines."""
import json
import os
import re
import shutil

from vf.common import BUILD, HARNESS, REPO, CheckError, base_env, compile_fu, fu_compiler, locked, run, tree_hash
from vf.lang.run import FLAGS
import hashlib


class NotBuilt(Exception):
    pass


def drivers():
    return sorted(f[:-3] for f in os.listdir(os.path.join(HARNESS, "lib")) if f.endswith(".fu"))


def driver(name, flavour="plain"):
    """The executable of harness/lib/<name>.fu."""
    fu_compiler()
    d = os.path.join(BUILD, "lib")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(HARNESS, "lib", name + ".fu")
    exe = os.path.join(d, name + "-" + flavour)
    want = tree_hash() + hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    with locked("lib-%s-%s" % (name, flavour)):
        if os.path.exists(exe) and os.path.exists(exe + ".stamp") and open(exe + ".stamp").read() == want:
            return exe
        text = open(src).read()
        near = re.findall(r"^// beside: (\S+)$", text, re.M)        # modules of /repo that are no library
        if near:
            place = os.path.join(d, "src-%s-%s" % (name, flavour))
            os.makedirs(place, exist_ok=True)
            for f in near:
                shutil.copy(os.path.join(REPO, f), place)
            src = os.path.join(place, name + ".fu")
            with open(src, "w") as f:
                f.write(text)
        # a home of its own: the object cache does not look at --cflags
        ok, out = compile_fu(src, exe, extra=FLAGS[flavour], home=os.path.join(BUILD, "home-" + flavour), must=False)
        if not ok:
            raise NotBuilt(out[-1500:])
        with open(exe + ".stamp", "w") as f:
            f.write(want)
    return exe


def drive(exe, script, tmp, tag, timeout=120, env=None):
    """Runs a driver on a script (a string, or an iterable of numbers); the parsed lines, and the run."""
    path = os.path.join(tmp, tag + ".script")
    with open(path, "w") as f:
        f.write(script if isinstance(script, str) else " ".join(map(str, script)))
    r = run([exe], timeout=timeout, mem_gb=None if exe.endswith("asan") else 6,
            env=base_env(SCRIPT=path, ASAN_OPTIONS="detect_leaks=1:exitcode=77:verify_asan_link_order=0", **(env or {})))
    out = []
    for line in r.out.decode("latin1").splitlines():
        try:
            out.append(json.loads(line))
        except ValueError:
            break
    return out, r


def guarded(fn):
    """A driver that does not build is an answer: what it needs is no longer there."""
    def check(ck):
        try:
            return fn(ck)
        except NotBuilt as e:
            ck.violation("driver-does-not-build", "a program that uses the library does not build: " + str(e)[-600:], {"output": str(e)})
            return ck.finish({"traces_validated_against_impl": 0, "samples": []})
    return check
