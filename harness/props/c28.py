"""C28: the airfoil preprocessing command line."""
import os
import runpy
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import bootstrap
import gens
import polargen as pg
from core import Violation, info, need, sut

ID = "C28"
N = dict(quick=1200, thorough=30000)
RULE = ("airfoil files of random polars (other angles, several Reynolds numbers) in random folders and a random command line (3-D "
        "correction, extrapolation, blending; own or default output name; common angles or not; paths with several dots, blanks, "
        "folders); the one file written must be where it belongs and equal that of the corresponding library calls, and all files that "
        "were there must be unchanged; one evaluation per command; non-trivial: all")


@st.composite
def strategy_(draw):
    act = draw(st.sampled_from(["stall3D", "extrap", "blend"]))
    case = dict(act=act, A=draw(pg.airfoil(nmax=3, linear=True)), out=draw(st.sampled_from([None, None, "out.dat", "sub/other.name.txt"])),
                common=draw(st.booleans()), src=draw(st.sampled_from(["foil.dat", "a.b.dat", "sub/foil.dat", "my foil.txt", "noext", "./sub/x.y.z"])),
                raw=draw(st.booleans()), cwd=draw(st.booleans()), order=draw(st.booleans()))
    if act == "stall3D":
        case["args"] = ["%g" % draw(gens.grid(0.15, 1, 0.05)), "%g" % draw(gens.grid(0.02, 0.5, 0.02)), "%g" % draw(gens.grid(1, 12, 0.5))]
    elif act == "extrap":
        case["args"] = ["%g" % draw(gens.grid(0.8, 2.0, 0.1))]
    else:
        case["B"] = draw(pg.airfoil(nmax=3, linear=True))
        case["args"] = [draw(st.sampled_from(["other.dat", "sub/o.t.her", "b.txt"])),
                        draw(st.sampled_from(["0.5", "0", "1", "0.25", "0.75", ".3"]))]
    return case


def strategy():
    return strategy_()


def check(case):
    d = tempfile.mkdtemp(prefix="c28-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    old, argv = os.getcwd(), sys.argv
    try:
        os.mkdir(os.path.join(d, "sub"))
        os.mkdir(os.path.join(d, "elsewhere"))
        return check_in(case, d)
    finally:
        os.chdir(old)
        sys.argv = argv
        shutil.rmtree(d)


def tree(d):
    return {os.path.relpath(os.path.join(r, f), d): open(os.path.join(r, f)).read() for r, _, fs in os.walk(d) for f in fs}


def check_in(case, d):
    from ccblade.airfoilprep import Airfoil

    act = case["act"]

    def path(p):
        return p if case["cwd"] else os.path.join(d, p)

    os.chdir(d if case["cwd"] else os.path.join(d, "elsewhere"))
    src = path(case["src"])
    with sut("writing the source files"):
        for P, f in ((case["A"], src), (case.get("B"), path(case["args"][0]) if act == "blend" else None)):
            if f and case.get("raw"):
                pg.write_raw(f, P)
            elif f:
                pg.build_af(P).writeToAerodynFile(f)
    before = tree(d)
    # what it has to do, by library calls
    ref = os.path.join(d, "elsewhere", "reference")
    with sut("the library calls"):
        af = Airfoil.initFromAerodynFile(src)
        if act == "stall3D":
            res = af.correction3D(float(case["args"][0]), float(case["args"][1]), float(case["args"][2]))
        elif act == "extrap":
            res = af.extrapolate(float(case["args"][0]))
        else:
            res = af.blend(Airfoil.initFromAerodynFile(path(case["args"][0])), float(case["args"][1]))
        if case["common"]:
            res = res.interpToCommonAlpha()
        res.writeToAerodynFile(ref)
    want = open(ref).read()
    os.remove(ref)
    if case["out"]:
        target = case["out"]
    else:
        head, name = os.path.split(case["src"])
        dot = name.rfind(".")
        stem, ext = (name[:dot], name[dot:]) if dot > 0 else (name, "")
        if act == "stall3D":
            t = stem + "_3D" + ext
        elif act == "extrap":
            t = stem + "_extrap" + ext
        else:
            b = os.path.basename(case["args"][0])
            bd = b.rfind(".")
            t = stem + "+" + b[:bd] + "_blend" + case["args"][1] + b[bd:]
        target = os.path.join(head, t)
    opts = ["--" + act] + ([path(case["args"][0]), case["args"][1]] if act == "blend" else case["args"])
    if case["out"]:
        opts += ["--out", path(case["out"])]
    if case["common"]:
        opts += ["--common"]
    sys.argv = ["airfoilprep.py"] + ([src] + opts if case["order"] or act != "extrap" else ["--common"] * case["common"] + [src] + opts)
    try:
        runpy.run_path(os.path.join(bootstrap.REPO, "ccblade", "airfoilprep.py"), run_name="__main__")
    except SystemExit as e:
        need(e.code in (None, 0), lambda: "command %s exits with %r" % (sys.argv, e.code))
    except Violation:
        raise
    except Exception as e:
        raise Violation("command %s raises %s: %s" % (sys.argv, type(e).__name__, e))
    after = tree(d)
    target = os.path.normpath(target)
    new = sorted(set(after) - set(before))
    need(new == [target] or (target in before and not new), lambda: "command %s writes %s instead of %s" % (sys.argv[1:], new, target))
    for f in before:
        if f != target:
            need(after.get(f) == before[f], lambda: "command %s changes %s" % (sys.argv[1:], f))
    if after[target] != want:
        la, lb = after[target].split("\n"), want.split("\n")
        k = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
        raise Violation("command %s: line %d of the output is %r, the library gives %r" % (sys.argv[1:], k + 1, la[k:k + 1], lb[k:k + 1]))
    return info(True, [act, "default name" if not case["out"] else "own name", "common" if case["common"] else ""])
