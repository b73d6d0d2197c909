"""A stand-in for the XFOIL program: reads XFOIL commands from standard input, loads the profile it is told to load, deflects a flap by a
rule of its own, panels the profile and saves it.  Behaves like XFOIL where it matters: settings belong to menus, only an executed
(EXEC) buffer is saved, and a file that exists is not overwritten unless that is confirmed.

Run as a program, its way of ending is set by a file `how` next to it: ok, quits (ends before saving), garbage (saves words).
With a line `meet DIR` two of them wait for each other in DIR after having started and again after having saved."""
import math
import os
import sys
import time


def flap(x, y, hinge, rel, deg):
    """the profile with everything behind the hinge turned about (hinge, rel/10)"""
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    out = []
    for a, b in zip(x, y):
        if a > hinge:
            u, v = a - hinge, b - 0.1 * rel
            a, b = hinge + c * u + s * v, 0.1 * rel - s * u + c * v
        out.append((a, b))
    return out


def panel(pts, n):
    """n points, evenly by number along the profile"""
    out = []
    for i in range(n):
        t = i * (len(pts) - 1) / (n - 1.0)
        k = min(int(t), len(pts) - 2)
        w = t - k
        out.append(tuple(p + w * (q - p) for p, q in zip(pts[k], pts[k + 1])))
    return out


def meet(d, tag):
    open(os.path.join(d, "%s-%d" % (tag, os.getpid())), "w").close()
    end = time.time() + 10
    while len([f for f in os.listdir(d) if f.startswith(tag)]) < 2 and time.time() < end:
        time.sleep(0.002)


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    how = open(os.path.join(here, "how")).read().split()
    if "meet" in how:
        meet(how[-1], "started")
    lines = iter(sys.stdin.read().split("\n"))
    nxt = lambda: next(lines).strip()
    menu, buf, cur, n = "", None, None, 160
    try:
        while True:
            cmd = nxt()
            up = cmd.upper()
            if up == "":
                if menu == "PPAR" and cur is not None:
                    cur = panel(cur, n)
                menu = ""
            elif menu == "":
                if up in ("PLOP", "GDES", "PPAR"):
                    menu = up
                elif up == "LOAD":
                    f = nxt()
                    if os.path.exists(f):
                        pts = [tuple(float(v) for v in s.split()) for s in open(f) if s.strip()]
                        nxt()  # the name, as the file holds none
                        buf, cur = list(pts), list(pts)
                elif up == "PSAV":
                    f = nxt()
                    with open(os.path.join(here, "log"), "a") as g:
                        g.write(f + "\n")
                    if how[0] == "quits":
                        return
                    if os.path.exists(f) and not nxt().upper().startswith("Y"):
                        continue
                    if cur is not None:
                        with open(f, "w") as g:
                            for p in cur:
                                g.write("not a number\n" if how[0] == "garbage" else "   %.7f   %.7f\n" % p)
                elif up == "QUIT":
                    return
            elif menu == "GDES" and buf is not None:
                if up == "FLAP":
                    hinge, v = float(nxt()), float(nxt())
                    if v != 999:
                        raise StopIteration  # not in thicknesses
                    rel, deg = float(nxt()), float(nxt())
                    buf = flap([p[0] for p in buf], [p[1] for p in buf], hinge, rel, deg)
                elif up == "NAME":
                    nxt()
                elif up == "EXEC":
                    cur = list(buf)
            elif menu == "PPAR":
                if up == "N":
                    n = int(nxt())
                elif up in ("P", "T", "R", "XT", "XB"):
                    nxt()
    except StopIteration:
        pass
    finally:
        if "meet" in how:
            meet(how[-1], "saved")


if __name__ == "__main__":
    main()
