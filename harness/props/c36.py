"""C36: plots of polars and airfoils show their data."""
import re
import sys
import types

import numpy as np
from hypothesis import strategies as st

import gens
import polargen as pg
from core import arr, info, need, same, sut

ID = "C36"
N = dict(quick=1200, thorough=40000)
RULE = ("random polars and airfoils of 1-5 polars (in part without moments), plotted each by itself, together, and on separate figures, through a "
        "stand-in for matplotlib that records what is drawn where; a figure per coefficient, a line per polar with exactly its angles and "
        "coefficients; one evaluation per plot; non-trivial: an airfoil of at least two polars")
ASSUMPTIONS = ["matplotlib is not installed here: a recording stand-in takes its place"]


class Any(object):
    """answers to everything a plot may be decorated with"""

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any()

    def __iter__(self):
        return iter(())


class Axes(Any):
    def __init__(self, fig):
        self.fig, self.lines, self.xl, self.yl = fig, [], "", ""

    def plot(self, x, y, *a, **k):
        self.lines.append((np.array(x, float), np.array(y, float), str(k.get("label", ""))))
        return [Any()]

    def set_xlabel(self, t, *a, **k):
        self.xl = str(t)

    def set_ylabel(self, t, *a, **k):
        self.yl = str(t)

    def set(self, **k):
        self.xl, self.yl = str(k.get("xlabel", self.xl)), str(k.get("ylabel", self.yl))


class Figure(Any):
    def __init__(self, plt):
        self.plt, self.axes = plt, []

    def add_subplot(self, *a, **k):
        ax = Axes(self)
        self.axes.append(ax)
        self.plt.fig, self.plt.ax = self, ax
        return ax

    add_axes = add_subplot

    def subplots(self, r=1, c=1, **k):
        n = r * c
        out = [self.add_subplot() for _ in range(n)]
        return out[0] if n == 1 else np.array(out).reshape((r, c) if min(r, c) > 1 else (n,))

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot()


class Pyplot(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "matplotlib.pyplot")
        self.fig = self.ax = None

    def figure(self, *a, **k):
        self.fig, self.ax = Figure(self), None
        return self.fig

    def subplots(self, r=1, c=1, **k):
        f = self.figure()
        return f, f.subplots(r, c)

    def gcf(self):
        return self.fig or self.figure()

    def gca(self):
        if self.ax is None:
            self.gcf().add_subplot()
        return self.ax

    def sca(self, ax):
        self.fig, self.ax = ax.fig, ax

    def subplot(self, *a, **k):
        return self.gcf().add_subplot()

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    def xlabel(self, t, *a, **k):
        self.gca().set_xlabel(t)

    def ylabel(self, t, *a, **k):
        self.gca().set_ylabel(t)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any()


def stand_in():
    old = {k: sys.modules.get(k) for k in ("matplotlib", "matplotlib.pyplot")}
    m = types.ModuleType("matplotlib")
    m.pyplot = Pyplot()
    m.use = lambda *a, **k: None
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = m, m.pyplot
    return old


def restore(old):
    for k, v in old.items():
        if v is None:
            sys.modules.pop(k, None)
        else:
            sys.modules[k] = v


@st.composite
def strategy_(draw):
    return dict(P=draw(pg.airfoil(nmax=5)), nocm=draw(gens.flag(0.2)), which=draw(st.integers(0, 4)),
                order=draw(st.permutations(["polar", "single", "default", "separate"])))


def strategy():
    return strategy_()


COEF = (("cl", "lift"), ("cd", "drag"), ("cm", "moment"))


def figure(fig, polars, k, what):
    name, word = COEF[k]
    need(isinstance(fig, Figure), lambda: "%s returns %r instead of a figure" % (what, fig))
    lines = [ln for ax in fig.axes for ln in ax.lines]
    need(len(lines) == len(polars), lambda: "%s: %d lines on the figure of %s instead of %d" % (what, len(lines), name, len(polars)))
    for (x, y, lab), p in zip(lines, polars):
        same(x, np.array(p["alpha"], float), "%s: angles drawn for %s, Re=%g" % (what, name, p["Re"]))
        same(y, np.array(p[name], float), "%s: %s drawn for Re=%g" % (what, name, p["Re"]))
        num = re.search(r"[-+]?\d+(\.\d*)?([eE][-+]?\d+)?", lab)
        if num:  # the legend says which Reynolds number
            v = float(num.group()) * (1e6 if "million" in lab else 1.0)
            need(abs(v - p["Re"]) <= 1e-6 * abs(p["Re"]), lambda: "%s: line for Re=%r labelled %r" % (what, p["Re"], lab))
    for ax in fig.axes:
        need(word in ax.yl.lower() and "angle" in ax.xl.lower(), lambda: "%s: axes of %s named %r and %r" % (what, name, ax.xl, ax.yl))


def check(case):
    old = stand_in()
    try:
        return check_in(case)
    finally:
        restore(old)


def check_in(case):
    P = pg.ordered(case["P"])
    if case["nocm"]:
        P = [dict(p, cm=[0.0] * len(p["alpha"])) for p in P]
    with sut("building the airfoil"):
        af = pg.build_af([dict(p) for p in P])
    w = case["which"] % len(P)
    for kind in case["order"]:
        if kind == "polar":
            with sut("Polar.plot"):
                figs = list(af.polars[w].plot())
            ref = [([P[w]], k) for k in range(3)]
        elif kind == "separate":
            with sut("Airfoil.plot(single_figure=False)"):
                figs = list(af.plot(single_figure=False))
            ref = [([p], k) for p in P for k in range(3)]
        else:
            with sut("Airfoil.plot"):
                figs = list(af.plot() if kind == "default" else af.plot(single_figure=True))
            ref = [(P, k) for k in range(3)]
        need(len(figs) == len(ref), lambda: "plot (%s) returned %d figures instead of %d" % (kind, len(figs), len(ref)))
        need(len(set(map(id, figs))) == len(figs), "the same figure returned twice")
        for f, (ps, k) in zip(figs, ref):
            figure(f, ps, k, "plot (%s)" % kind)
    for p, q in zip(af.polars, P):
        for k in ("alpha", "cl", "cd", "cm"):
            same(arr(getattr(p, k), None, k), np.array(q[k], float), "%s after plotting" % k)
    return info(len(P) >= 2, ["%d polars" % len(P), "without moments" if case["nocm"] else ""], 4)
