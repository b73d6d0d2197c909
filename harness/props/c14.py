"""C14: AeroDyn airfoil files: what is in the file is what is read, and writing then reading gives the airfoil back."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

import gens
import polargen as pg
from core import Violation, arr, close, info, need, same, sut

ID = "C14"
N = dict(quick=3200, thorough=80000)
RULE = ("file texts generated from random tables in random layouts (number formats, blanks and tabs, descriptions, tables in any order) "
        "are read and compared number by number, incomplete rows must be refused; random airfoils are written over an existing longer "
        "file, read by an independent reader and by the code, and written again; one evaluation per table read; non-trivial: at least "
        "two tables or two different sets of angles")
ASSUMPTIONS = ["values of at most six decimals (the precision of the format) for exact comparisons, half a unit of the sixth decimal otherwise"]
PARAMS = ("control", "stall", "zero cn", "slope", "cn stall +", "cn stall -", "alpha cdmin", "cdmin")


@st.composite
def strategy_(draw):
    case = dict(mode=draw(st.sampled_from(["read", "write", "write", "bad"])))
    lin = True
    case["P"] = draw(pg.airfoil(nmax=5, full=draw(gens.flag(0.2)), linear=lin))
    if draw(gens.flag(0.15)):  # coefficients of any size
        q, f = draw(st.sampled_from(["cl", "cd", "cm"])), draw(st.sampled_from([20.0, 150.0, 3000.0]))
        for p in case["P"]:
            p[q] = [float("%.6f" % (f * v)) for v in p[q]]
    if case["mode"] == "write":
        if draw(st.booleans()):  # numbers of more than six decimals and Reynolds numbers that are not whole thousands
            k = draw(gens.grid(0.9, 1.1, 0.0123457))
            for p in case["P"]:
                p["cl"] = [v * k for v in p["cl"]]
                p["cm"] = [v * k for v in p["cm"]]
                p["Re"] = p["Re"] * k
        case["cyl"] = draw(gens.flag(0.15))
    else:
        case["fmt"] = [draw(st.sampled_from(["%.6f", "%.8g", "%.6e", "%+.6f", "%12.6f"])) for _ in range(4)]
        case["sep"] = draw(st.sampled_from([" ", "\t", "   ", " \t "]))
        case["lead"] = draw(st.sampled_from(["", "  ", "\t"]))
        case["desc"] = draw(st.lists(st.sampled_from(["", "DU 40 airfoil", "1.0 2.0 3", "with EOT", "0 header line, (deg)", "#"]), min_size=3, max_size=3))
        case["param"] = [draw(gens.grid(-20, 20, 0.25)) for _ in range(8)]
        case["eot"] = draw(st.sampled_from(["EOT", "EOT 1", "  EOT"]))
        case["crlf"] = draw(gens.flag(0.15))
        case["row"] = draw(st.integers(0, 5))
        case["ncol"] = draw(st.integers(1, 3))
    return case


def strategy():
    return strategy_()


def text(case, drop=False):
    out = [d for d in case["desc"]]
    out.append("%s%d   Number of airfoil tables in this file" % (case["lead"], len(case["P"])))
    f, s = case["fmt"], case["sep"]
    for k, p in enumerate(case["P"]):
        out.append("%s%.6f%sReynolds number in millions 1 2 3" % (case["lead"], p["Re"] / 1e6, s))
        for j, v in enumerate(case["param"]):
            out.append("%s%.4f%s%s 7" % (case["lead"], v, s, PARAMS[j]))
        for i in range(len(p["alpha"])):
            vals = [f[0] % p["alpha"][i], f[1] % p["cl"][i], f[2] % p["cd"][i], f[3] % p["cm"][i]]
            if drop and k == len(case["P"]) - 1 and i == min(case["row"], len(p["alpha"]) - 1):
                vals = vals[:case["ncol"]]
            out.append(case["lead"] + s.join(vals))
        out.append(case["eot"])
    return "\n".join(out) + "\n"


def parse(path):
    """independent reader: list of (Re/1e6, 8 parameters, rows)"""
    lines = open(path).read().split("\n")
    n = int(lines[3].split()[0])
    k = 4
    tabs = []
    for _ in range(n):
        head = [float(x.split()[0]) for x in lines[k:k + 9]]
        k += 9
        rows = []
        while "EOT" not in lines[k]:
            row = [float(x) for x in lines[k].split()]
            if len(row) != 4:
                raise Violation("written row %r does not hold four numbers" % lines[k])
            rows.append(row)
            k += 1
        k += 1
        tabs.append((head[0], head[1:], np.array(rows)))
    if "".join(lines[k:]).strip():
        raise Violation("text after the last table: %r" % lines[k:k + 3])
    return tabs


def compare(af, P, what, tol=0.0, cls=None):
    P = pg.ordered(P)
    with sut(what):
        ps = list(af.polars)
    need(len(ps) == len(P), lambda: "%s: %d polars instead of %d" % (what, len(ps), len(P)))
    for p, q in zip(ps, P):
        if cls:
            need(type(p) is cls, lambda: "%s: polar of type %s" % (what, type(p).__name__))
        close(float(p.Re), q["Re"], 1e-12, what + ": Reynolds number", atol=tol * 1e6)
        for k in ("alpha", "cl", "cd", "cm"):
            v = arr(getattr(p, k), (len(q["alpha"]),), "%s: %s" % (what, k))
            close(v, q[k], 1e-12, "%s: %s at Re=%g" % (what, k, q["Re"]), atol=tol)


def check(case):
    d = tempfile.mkdtemp(prefix="c14-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        return check_in(case, d)
    finally:
        shutil.rmtree(d)


def check_in(case, d):
    from ccblade.airfoilprep import Airfoil, Polar
    from ccblade.ccblade import CCAirfoil

    P = case["P"]
    if case["mode"] != "write":  # what the number formats leave of the numbers
        P = [dict(p, **{k: [float(f % v) for v in p[k]] for k, f in zip(("alpha", "cl", "cd", "cm"), case["fmt"])}) for p in P]
    f = os.path.join(d, "foil.dat")
    if case["mode"] in ("read", "bad"):
        t = text(case)
        open(f, "w", newline="\r\n" if case["crlf"] else None).write(t)

        class Sub(Polar):
            pass

        with sut("Airfoil.initFromAerodynFile"):
            af = Airfoil.initFromAerodynFile(f)
            sub = Airfoil.initFromAerodynFile(f, polarType=Sub)
        compare(af, P, "airfoil read", 1e-12, Polar)
        compare(sub, P, "airfoil read with an own polar class", 1e-12, Sub)
        need(open(f).read() == t, "reading changed the file")
        same_alpha = all(p["alpha"] == P[0]["alpha"] for p in P)
        if len(set(p["Re"] for p in P)) == len(P) and case["mode"] == "read":
            # the spline built straight from the file
            Q = pg.ordered(P)
            al = sorted(set(x for p in P for x in p["alpha"]))
            grid = {k: np.array([pg.lerp(al, p["alpha"], p[k]) for p in Q]).T for k in ("cl", "cd", "cm")}
            try:
                b = CCAirfoil(al, [p["Re"] for p in Q], grid["cl"], grid["cd"], cm=grid["cm"])
            except ValueError:
                return info(len(P) > 1 or not same_alpha, ["read", "no smoothing spline exists for the table"], len(P))
            with sut("CCAirfoil.initFromAerodynFile"):
                a = CCAirfoil.initFromAerodynFile(f)
            x = np.radians(np.linspace(al[0], al[-1], 7))
            off = {}
            for Re in (Q[0]["Re"], Q[-1]["Re"], 0.5 * (Q[0]["Re"] + Q[-1]["Re"])):
                with sut("evaluating the airfoil read"):
                    got = a.evaluate(x, np.full(7, Re), return_cm=True)
                    ref = b.evaluate(x, np.full(7, Re), return_cm=True)
                need(len(got) == 3, "evaluate returned %d values" % len(got))
                for g, r, nm in zip(got, ref, ("cl", "cd", "cm")):
                    d = np.max(np.abs(arr(g, (7,), "spline of the file: " + nm) - r))
                    if not d <= 1e-6:
                        off[nm] = max(off.get(nm, 0), d)
            # the smoothing routine chooses its knots from the data: round-off in the interpolated table can change them.  A
            # spline which differs from the one built here therefore has to meet the smoothing limits on the file's own table
            if off:
                av = np.radians(al)
                for nm, lim in (("cl", 0.1), ("cd", 0.001), ("cm", 0.0001)):
                    if nm in off:
                        ss = 0.0
                        for j, p in enumerate(Q):
                            with sut("evaluating the airfoil read"):
                                o = a.evaluate(av, np.full(len(av), p["Re"]), return_cm=True)[("cl", "cd", "cm").index(nm)]
                            ss += float(np.sum((np.asarray(o) - grid[nm][:, j]) ** 2)) * (2 if len(Q) == 1 else 1)
                        need(ss <= 1.02 * lim + 1e-12, lambda: "spline of the file: %s differs by %g from the spline of the table and its "
                             "squared deviations from the table are %g in sum, with a smoothing of %g" % (nm, off[nm], ss, lim))
        if case["mode"] == "bad":
            open(f, "w").write(text(case, True))
            try:
                Airfoil.initFromAerodynFile(f)
            except ValueError:
                pass
            else:
                raise Violation("a table row of %d numbers was accepted" % case["ncol"])
        return info(len(P) > 1 or not same_alpha, [case["mode"]], len(P))
    # writing
    if case["cyl"]:
        P = [dict(p, cl=[0.0] * len(p["cl"]), cm=[0.0] * len(p["cm"])) for p in P]
    with open(f, "w") as g:
        g.write("old content 1 2 3 4\n" * 3000)
    with sut("Airfoil.writeToAerodynFile"):
        af = pg.build_af(P)
        af.writeToAerodynFile(f)
    compare(af, P, "the airfoil itself after writing")
    need(os.listdir(d) == ["foil.dat"], lambda: "other files were written: %s" % os.listdir(d))
    al = sorted(set(x for p in P for x in p["alpha"]))
    common = []
    for p in P:
        q = dict(Re=p["Re"], alpha=al)
        for k in ("cl", "cd", "cm"):
            q[k] = list(pg.lerp(al, p["alpha"], p[k]))
        common.append(q)
    tabs = parse(f)
    need(len(tabs) == len(P), lambda: "%d tables in the file instead of %d" % (len(tabs), len(P)))
    H = 0.5001e-6
    with sut("unsteadyparam"):
        par = [pg.build(q, form="array").unsteadyparam() for q in pg.ordered(common)]
    for (Re, head, rows), q, pr in zip(tabs, pg.ordered(common), par):
        close(Re, q["Re"] / 1e6, 0, "Reynolds number in the file", atol=H)
        if len(set(q["cl"])) == len(set(np.round(q["cl"], 9))):
            pr = list(pr)
            low = [x for x, c in zip(q["alpha"], q["cd"]) if c <= min(q["cd"]) + 1e-12]
            if len(low) > 1:  # equal up to round-off: any of them
                near = min(low, key=lambda x: abs(x - head[6]))
                pr[6] = near if pr[6] in low else pr[6]
            close(head, pr, 1e-9, "parameters in the file", atol=H)
        close(rows, np.array([q[k] for k in ("alpha", "cl", "cd", "cm")]).T, 1e-12, "table in the file", atol=H)
    with sut("reading the file back"):
        back = Airfoil.initFromAerodynFile(f)
    compare(back, common, "airfoil read back", H)
    # a second round trip changes nothing any more
    f2 = os.path.join(d, "again.dat")
    with sut("writing and reading again"):
        back.writeToAerodynFile(f2)
        back2 = Airfoil.initFromAerodynFile(f2)
    for p, q in zip(back.polars, back2.polars):
        need(abs(p.Re - q.Re) <= 1e-9 * p.Re, "Reynolds number changed in the second round trip")
        for k in ("alpha", "cl", "cd", "cm"):
            same(getattr(p, k), getattr(q, k), "second round trip: " + k)
    return info(len(P) > 1 or len(al) != len(P[0]["alpha"]), ["write", "cylinder" if case["cyl"] else ""], 3 * len(P))
