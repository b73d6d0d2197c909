"""C29: flap coordinates through XFOIL (here: a stand-in program)."""
import glob
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

import flapseq
import gens
from core import Violation, arr, close, info, need, same, sut

ID = "C29"
N = dict(quick=480, thorough=9600)
RULE = ("a random airfoil outline, flap angle, hinge and node count; a stand-in for XFOIL records the commands and the outline file it is "
        "given and writes a known outline where it is asked to; folders with left-overs of an earlier run and with files of the user, "
        "runs in which the program fails, named runs of several processes at once in one folder; sequences of calls on two airfoils, among them "
        "failing ones (XFOIL saves nothing or garbage, or is not there), with a stand-in that executes the commands by the menus of XFOIL and turns "
        "the flap by a rule of its own; one evaluation per run; non-trivial: all")
ASSUMPTIONS = ["XFOIL itself is replaced by a program that understands the documented menu commands"]

STUB = r"""#!/bin/sh
# keeps the commands, and the outline named after LOAD; writes an outline where PSAV asks for it
cat > "$1.cmd"
load=$(sed -n '/^LOAD/{n;s/ *$//;p;q}' "$1.cmd")
save=$(sed -n '/^PSAV/{n;s/ *$//;p;q}' "$1.cmd")
cp "$load" "$1.in"
%s
[ -f "$1.out" ] && cp "$1.out" "$save"
"""


@st.composite
def strategy_(draw):
    if draw(gens.flag(0.4)):
        return dict(sequence=draw(flapseq.strategy_()))
    n = draw(st.integers(5, 30))
    return dict(x=[draw(gens.grid(-0.1, 1.1, 0.003127)) for _ in range(n)], y=[draw(gens.grid(-0.4, 0.4, 0.0021)) for _ in range(n)],
                name=draw(st.sampled_from(["DU40", "af_1", "NACA64-618", "Foil.v2"])),
                flap=draw(gens.fgrid(-15, 15, 0.5)), hinge=draw(st.one_of(st.none(), gens.fgrid(0.5, 0.9, 0.05))),
                yt=draw(st.one_of(st.none(), gens.fgrid(0, 1, 0.25))), nodes=draw(st.one_of(st.none(), st.integers(20, 300), st.integers(300, 495))),
                res=[[draw(gens.grid(0, 1, 0.01)), draw(gens.grid(-0.3, 0.3, 0.01))] for _ in range(draw(st.integers(2, 6)))],
                mode=draw(st.sampled_from(["plain", "plain", "multi", "mpi", "parallel"])), stale=draw(st.booleans()),
                listform=draw(st.booleans()), runs=draw(st.integers(2, 3)), again=draw(gens.flag(0.2)), fails=draw(gens.flag(0.15)))


def strategy():
    return strategy_()


def job(case, k, d):
    """what one run has to produce: its own flap angle and result"""
    c = dict(case)
    c["flap"] = case["flap"] + k
    c["res"] = [[a, b + k] for a, b in case["res"]]
    return c


def one(case, d, stub, tag, parallel, fails=False):
    """runs in the current process, in folder d"""
    from ccblade.ccblade import CCAirfoil

    al = [-180.0, -90.0, 0.0, 90.0, 180.0]
    f = list if case["listform"] else np.array
    out = np.array(case["res"])
    if not fails:
        np.savetxt(os.path.join(d, "stub", tag + ".out"), out)
    with sut("building the airfoil"):
        af = CCAirfoil(al, [1e6], np.zeros((5, 1)), np.ones((5, 1)), x=f(case["x"]), y=f(case["y"]), AFName=case["name"])
    kw = dict(delta_flap=case["flap"])
    if case["hinge"] is not None:
        kw["xc_hinge"] = case["hinge"]
    if case["yt"] is not None:
        kw["yt_hinge"] = case["yt"]
    if case["nodes"] is not None:
        kw["numNodes"] = case["nodes"]
    if case["mode"] in ("multi", "parallel"):
        kw["multi_run"] = True
    if case["mode"] == "mpi":
        kw["MPI_run"] = True
    if fails:  # the program writes nothing: there is nothing that could be returned
        try:
            af.af_flap_coords(stub(tag), **kw)
        except Exception:
            pass
        else:
            raise Violation("no outline was written by XFOIL, but %s is returned" % np.array(af.af_flap_xcoords)[:5])
        need(os.path.exists(os.path.join(d, "stub", tag + ".cmd")), "XFOIL was not started")
        return
    with sut("af_flap_coords"):
        af.af_flap_coords(stub(tag), **kw)
    close(af.af_flap_xcoords, out[:, 0], 0, "flap x coordinates", atol=1e-12)
    close(af.af_flap_ycoords, out[:, 1], 0, "flap y coordinates", atol=1e-12)
    close(af.ctrl, case["flap"], 0, "flap angle kept")
    same(np.asarray(af.x, float), np.array(case["x"]), "outline afterwards: x")
    same(np.asarray(af.y, float), np.array(case["y"]), "outline afterwards: y")
    given = np.loadtxt(os.path.join(d, "stub", tag + ".in"))
    close(given, np.array([case["x"], case["y"]]).T, 0, "outline given to XFOIL", atol=0.51e-6)
    cmd = [ln.strip() for ln in open(os.path.join(d, "stub", tag + ".cmd"))]

    def after(word, n):
        need(word in cmd, lambda: "command %s missing in %s" % (word, cmd))
        i = cmd.index(word)
        return cmd[i + 1:i + 1 + n]

    load = after("LOAD", 2)
    need(load[1] == case["name"], lambda: "airfoil named %r" % load[1])
    fl = after("FLAP", 4)
    want = [case["hinge"] if case["hinge"] is not None else 0.8, 999, case["yt"] if case["yt"] is not None else 0.5, case["flap"]]
    close([float(v) for v in fl], want, 0, "flap commands (x/c, 999, y/t, angle)", atol=1e-12)
    need(int(after("N", 1)[0]) == (case["nodes"] or 250), lambda: "number of nodes %r" % after("N", 1))
    need(after("EXEC", 1) is not None and cmd.index("GDES") < cmd.index("FLAP") < cmd.index("EXEC") < cmd.index("PSAV"), "order of the commands")
    need(cmd.index("EXEC") < cmd.index("PPAR") < cmd.index("N") < cmd.index("PSAV"), "order of the commands")
    need("QUIT" in cmd, "XFOIL is not ended")


def check(case):
    if "sequence" in case:
        return flapseq.check(case["sequence"])
    d = tempfile.mkdtemp(prefix="c29-")
    old = os.getcwd()
    try:
        os.chdir(d)
        return check_in(case, d)
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def check_in(case, d):
    os.mkdir("stub")
    mine = {"notes.txt": "keep", "foil.dat": "keep", "Polar_old.txt": "keep", "profile.txt": "keep"}
    for f, t in mine.items():
        open(f, "w").write(t)
    par = case["mode"] == "parallel"
    k = case["runs"] if par else 1
    # in parallel runs every program waits until all have started
    wait = ""
    if par:
        wait = "touch \"$1.here\"; n=0; while [ $(ls %s/stub/*.here | wc -l) -lt %d ] && [ $n -lt 100 ]; do sleep 0.02; n=$((n+1)); done" % (d, k)

    def stub(tag):
        f = os.path.join(d, "stub", "xfoil-" + tag)
        with open(f, "w") as g:
            g.write((STUB % wait).replace("$1", os.path.join(d, "stub", tag)))
        os.chmod(f, 0o755)
        return f

    if case["stale"]:
        for f in ("profilecoords.dat", "xfoil_input.txt", "NUL", "%s_%s_Airfoil.txt" % (case["name"], case["flap"]),
                  "profilecoords_p%d.dat" % os.getpid(), "%s_%s_Airfoil_p%d.txt" % (case["name"], case["flap"], os.getpid())):
            open(f, "w").write("9 9\n8 8\n7 7\n" * 30)
    fails = not par and case["fails"]
    if not par:
        one(case, d, stub, "a", False, fails)
        if case["again"]:
            one(job(case, 1, d), d, stub, "b", False)
    else:
        pids = []
        for q in range(k):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    try:
                        one(job(case, q, d), d, stub, "r%d" % q, True)
                        code = 0
                    except Violation as v:
                        open(os.path.join(d, "stub", "r%d.msg" % q), "w").write(str(v))
                        code = 1
                finally:
                    os._exit(code)
            pids.append(pid)
        codes = [os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) for p in pids]
        for q, c in enumerate(codes):
            if c == 1:
                raise Violation("run %d of %d at once: %s" % (q + 1, k, open(os.path.join(d, "stub", "r%d.msg" % q)).read()))
            need(c == 0, lambda: "run %d of %d at once ends with %r" % (q + 1, k, c))
    for f, t in mine.items():
        need(os.path.exists(f) and open(f).read() == t, lambda: "file %s of the user was changed or removed" % f)
    left = sorted(set(os.listdir(d)) - set(mine) - {"stub"})
    if case["mode"] == "plain":  # those of a named run are the left-overs put there above
        left = [f for f in left if "_p%d." % os.getpid() not in f]
    if not fails and not (case["stale"] and case["mode"] != "plain"):
        need(not left, lambda: "files left behind: %s" % left)
    return info(True, [case["mode"], "left-overs of an earlier run" if case["stale"] else "", "XFOIL fails" if fails else ""], k)
