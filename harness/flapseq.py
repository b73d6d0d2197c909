"""Sequences of af_flap_coords calls with a stand-in that executes the XFOIL commands (part of C29)."""
import contextlib
import json
import os
import shutil
import signal
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import gens
import xfoil_standin as xs
from core import arr, close, info, need, same, sut

@st.composite
def profile(draw):
    n = draw(st.integers(4, 12))
    t = draw(gens.fgrid(0.05, 0.4, 0.013))
    c = draw(gens.fgrid(-0.06, 0.06, 0.007))
    b = np.linspace(0, 2 * np.pi, 2 * n + 1)
    x = 0.5 * (1 + np.cos(b))
    y = np.where(b <= np.pi, 1, -1) * t * np.sqrt(np.abs(x)) * (1 - x) + c * np.sin(np.pi * x)
    return [float("%.7g" % v) for v in x], [float("%.7g" % v) for v in y]


@st.composite
def call(draw):
    c = dict(af=draw(st.integers(0, 1)), how=draw(st.sampled_from(["ok"] * 5 + ["quits", "garbage", "missing"])),
             stale=draw(gens.flag(0.4)), multi=draw(st.sampled_from(["", "", "multi_run", "MPI_run"])))
    k = {}
    if draw(gens.flag(0.8)):
        k["delta_flap"] = draw(st.one_of(gens.fgrid(-20, 20, 2.5), st.integers(-15, 15)))
    if draw(gens.flag(0.6)):
        k["xc_hinge"] = draw(gens.fgrid(0.5, 0.95, 0.03))
    if draw(gens.flag(0.6)):
        k["yt_hinge"] = draw(gens.fgrid(0, 1, 0.1))
    if draw(gens.flag(0.8)):
        k["numNodes"] = draw(st.integers(5, 120))
    c["kw"] = k
    return c


@st.composite
def strategy_(draw):
    case = dict(prof=[draw(profile()), draw(profile())], names=draw(st.sampled_from([["AF", "AF2"], ["S809", "S809"], ["a_b", "a"]])),
                lists=draw(st.booleans()))
    if draw(gens.flag(0.25)):
        case["pair"] = [draw(call()), draw(call())]
        case["pair"][0]["af"], case["pair"][1]["af"] = 0, 1
        if draw(st.booleans()):
            case["pair"][1]["kw"]["delta_flap"] = case["pair"][0]["kw"].get("delta_flap", 12.0)
        case["steps"] = []
    else:
        case["steps"] = [draw(call()) for _ in range(draw(st.integers(1, 4)))]
        case["again"] = draw(st.booleans())
        if case["again"] and len(case["steps"]) > 1:  # once more what was asked for before, with another outcome
            s = dict(case["steps"][-2], how=draw(st.sampled_from(["ok", "quits", "missing"])), stale=True)
            case["steps"][-1] = s
    return case


def strategy():
    return strategy_()


@contextlib.contextmanager
def quiet():
    keep, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        yield
    finally:
        os.dup2(keep, 2)
        os.close(keep)
        os.close(null)


def expected(case, c):
    k = dict(dict(delta_flap=12.0, xc_hinge=0.8, yt_hinge=0.5, numNodes=250), **c["kw"])
    x, y = case["prof"][c["af"]]
    pts = xs.flap([round(v, 6) for v in x], [round(v, 6) for v in y], k["xc_hinge"], k["yt_hinge"], k["delta_flap"])
    return np.array(xs.panel(pts, k["numNodes"])), k["delta_flap"]


def program(d, how):
    """the stand-in as a program in folder d"""
    os.makedirs(d)
    src = open(xs.__file__).read()
    f = os.path.join(d, "xfoil")
    with open(f, "w") as g:
        g.write("#!%s -IS\n" % sys.executable + src)
    os.chmod(f, 0o755)
    set_how(d, how)
    return f


def set_how(d, how):
    with open(os.path.join(d, "how"), "w") as g:
        g.write(how)


def airfoils(case):
    from ccblade.ccblade import CCAirfoil

    conv = (lambda v: list(v)) if case["lists"] else (lambda v: np.array(v))
    with sut("CCAirfoil"):
        return [CCAirfoil([-180.0, 0.0, 90.0, 180.0], [1e6], [0.0, 0.1, 0.0, 0.0], [0.1, 0.01, 1.0, 0.1], x=conv(p[0]), y=conv(p[1]), AFName=n)
                for p, n in zip(case["prof"], case["names"])]


def ask(af, c, prog):
    k = dict(c["kw"])
    if c["multi"]:
        k[c["multi"]] = True
    af.af_flap_coords(prog, **k)


def judge(case, c, af):
    ref, delta = expected(case, c)
    x = arr(af.af_flap_xcoords, (len(ref),), "af_flap_xcoords for %s" % c["kw"])
    y = arr(af.af_flap_ycoords, (len(ref),), "af_flap_ycoords for %s" % c["kw"])
    close(x, ref[:, 0], 0, "af_flap_xcoords for %s" % c["kw"], atol=3e-6)
    close(y, ref[:, 1], 0, "af_flap_ycoords for %s" % c["kw"], atol=3e-6)
    need(af.ctrl == delta, lambda: "ctrl is %r after a flap deflection of %r" % (af.ctrl, delta))


BYSTANDERS = {"notes.txt": "keep", "AF_5.0_Airfoil.dat": "1 2", "profile.dat": "0 0", "xfoil.def": "x", "Polar.txt": "p"}


def check(case):
    d = tempfile.mkdtemp(prefix="c29-")
    here = os.getcwd()
    try:
        work = os.path.join(d, "work")
        os.mkdir(work)
        os.chdir(work)
        for f, t in BYSTANDERS.items():
            with open(f, "w") as g:
                g.write(t)
        return pair(case, d) if case.get("pair") else steps(case, d)
    finally:
        os.chdir(here)
        shutil.rmtree(d)


def folder(case, before):
    now = {f: open(f).read() for f in os.listdir(".")}
    for f, t in BYSTANDERS.items():
        need(now.get(f) == t, lambda: "the file %s in the working folder was %s" % (f, "changed" if f in now else "removed"))
    left = sorted(set(now) - set(before))
    need(not left, lambda: "files left behind: %s" % left)


def steps(case, d):
    prog = program(os.path.join(d, "bin"), "ok")
    afs = airfoils(case)
    last = {}
    cls = []
    held = [None, None]
    for c in case["steps"]:
        af = afs[c["af"]]
        key = json.dumps([c["af"], c["kw"], c["multi"]], sort_keys=True)
        if c["stale"] and key in last:  # readable coordinates of another run at the very name XFOIL will save to
            with open(last[key], "w") as g:
                g.write("1.0 0.5\n0.5 0.25\n0.0 0.125\n")
            cls.append("results of another run in the way")
        before = os.listdir(".")
        set_how(os.path.join(d, "bin"), c["how"] if c["how"] != "missing" else "ok")
        log = os.path.join(d, "bin", "log")
        if os.path.exists(log):
            os.remove(log)
        p = prog if c["how"] != "missing" else os.path.join(d, "bin", "nothing")
        if c["how"] == "ok":
            with sut("af_flap_coords(%s)" % c["kw"]):
                with quiet():
                    ask(af, c, p)
            judge(case, c, af)
            folder(case, before)
            held[c["af"]] = (np.array(af.af_flap_xcoords), np.array(af.af_flap_ycoords))
        else:
            try:
                with quiet():
                    ask(af, c, p)
            except Exception:
                pass
            else:
                need(False, lambda: "XFOIL (%s) gave no coordinates, yet there was no error" % c["how"])
            for f, t in BYSTANDERS.items():
                need(open(f).read() == t, "the file %s in the working folder was changed" % f)
        if os.path.exists(log):
            last[key] = open(log).read().split()[-1]
        cls.append("XFOIL " + c["how"])
        for j in (0, 1):
            same(np.array(afs[j].x, float), np.array(case["prof"][j][0]), "the airfoil's own profile")
            same(np.array(afs[j].y, float), np.array(case["prof"][j][1]), "the airfoil's own profile")
            if held[j] is not None:  # neither a failed run nor the other airfoil changes what this one holds
                same(afs[j].af_flap_xcoords, held[j][0], "the flapped profile held")
                same(afs[j].af_flap_ycoords, held[j][1], "the flapped profile held")
    return info(len(case["steps"]) > 1, sorted(set(cls)), len(case["steps"]))


def pair(case, d):
    """two processes in the same folder at the same time"""
    os.mkdir(os.path.join(d, "meet"))
    afs = airfoils(case)
    pids = []
    before = os.listdir(".")
    for j, c in enumerate(case["pair"]):
        prog = program(os.path.join(d, "bin%d" % j), "ok meet %s" % os.path.join(d, "meet"))
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(60)
                with quiet():
                    ask(afs[j], dict(c, multi=c["multi"] or "multi_run"), prog)
                out = dict(x=list(map(float, afs[j].af_flap_xcoords)), y=list(map(float, afs[j].af_flap_ycoords)), ctrl=afs[j].ctrl)
            except BaseException as e:  # noqa
                out = dict(error="%s: %s" % (type(e).__name__, e))
            try:
                with open(os.path.join(d, "out%d" % j), "w") as g:
                    json.dump(out, g)
            finally:
                os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    for j, c in enumerate(case["pair"]):
        f = os.path.join(d, "out%d" % j)
        need(os.path.exists(f), "process %d ended without a result" % j)
        o = json.load(open(f))
        need("error" not in o, lambda: "with two processes in one folder process %d failed: %s" % (j, o["error"]))
        afs[j].af_flap_xcoords, afs[j].af_flap_ycoords, afs[j].ctrl = np.array(o["x"]), np.array(o["y"]), o["ctrl"]
        judge(case, c, afs[j])
    folder(case, before)
    return info(True, ["two processes"], 2)
