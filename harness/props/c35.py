"""C35: damaged airfoil files are refused, whole ones are read whatever follows them."""
import os
import shutil
import signal
import tempfile

import numpy as np
from hypothesis import strategies as st

import gens
from core import Violation, info, need, sut
from props import c14

ID = "C35"
N = dict(quick=3200, thorough=100000)
RULE = ("file texts from random tables in random layouts, damaged: cut off at any byte before the end of the last table, more tables "
        "announced than there are, a number replaced by a word, a row without its last numbers, an empty or a text line within a table, an "
        "end mark taken away; both readers must raise an error (an error within 20 s, not an airfoil with a part of the data). Text after the last table, a "
        "file that ends right behind the last end mark, and fewer tables announced than there are must be read as announced; one evaluation "
        "per file and reader; non-trivial: a damaged file")
WORDS = ("abc", "1.2.3", "--", "1,5", "0x1p", "EO", "1e", "(2)")


@st.composite
def strategy_(draw):
    case = draw(c14.strategy_().filter(lambda c: c["mode"] != "write"))
    case["mode"] = draw(st.sampled_from(["cut", "cut", "cut", "announce", "word", "word", "row", "line", "noeot", "tail", "short end", "fewer"]))
    case["pos"] = draw(st.floats(0, 1, width=32).map(lambda v: float("%.6f" % v)))
    case["word"] = draw(st.sampled_from(WORDS))
    case["more"] = draw(st.integers(1, 3))
    return case


def strategy():
    return strategy_()


class Slow(Exception):
    pass


def _late(*_):
    raise Slow()


def attempt(reader, f):
    """None or the object read"""
    old = signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, 20.0)
    try:
        return reader(f)
    except Slow:
        raise Violation("reading did not end within 20 s")
    except MemoryError:
        raise Violation("reading ran out of memory")
    except Exception:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def rows(lines, case):
    """line numbers of: numbers (first token counts), table rows, end marks"""
    k = 4
    first, tab, end = [3], [], []
    for p in case["P"]:
        first += range(k, k + 9)
        k += 9
        tab.append(list(range(k, k + len(p["alpha"]))))
        k += len(p["alpha"])
        end.append(k)
        k += 1
    return first, tab, end


def pick(seq, x):
    return seq[min(len(seq) - 1, int(x * len(seq)))]


def damage(case):
    t = c14.text(case)
    m, x = case["mode"], case["pos"]
    lines = t.split("\n")
    first, tab, end = rows(lines, case)
    need("EOT" in lines[end[-1]], "harness: end mark")
    flat = [i for r in tab for i in r]
    if m == "cut":
        last = sum(len(v) + 1 for v in lines[:end[-1]]) + lines[end[-1]].index("EOT") + 2
        if x < 0.6:  # mostly near the end
            return t[:max(0, last - int(x * 300))]
        return t[:int((x - 0.6) / 0.4 * last)]
    if m == "announce":
        lines[3] = "%d tables" % (len(case["P"]) + case["more"])
    elif m == "word":
        if x < 0.4:
            i = pick(first, x / 0.4)
            w = lines[i].split()
            lines[i] = " ".join([case["word"]] + w[1:])
        else:
            i = pick(flat, (x - 0.4) / 0.6)
            w = lines[i].split()
            w[int(x * 1e5) % 4] = case["word"]
            lines[i] = case["sep"].join(w)
    elif m == "row":
        i = pick(flat, x)
        lines[i] = case["sep"].join(lines[i].split()[:case["ncol"]])
    elif m == "line":
        i = pick(flat, x)
        lines.insert(i + int(x * 1e5) % 2, ("", "  ", "! comment", "\t")[int(x * 1e4) % 4])
    elif m == "noeot":
        del lines[pick(end, x)]
    elif m == "tail":
        lines.append("text behind the last table\n1 2 3\n9 9 9 9 9\n\nEOT")
    elif m == "short end":
        del lines[end[-1] + 1:]
        lines[end[-1]] = lines[end[-1]].split("EOT")[0] + "EOT"
    elif m == "fewer":
        lines[3] = "%d" % max(1, len(case["P"]) - case["more"])
    return "\n".join(lines)


def check(case):
    d = tempfile.mkdtemp(prefix="c35-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        return check_in(case, d)
    finally:
        shutil.rmtree(d)


def check_in(case, d):
    from ccblade.airfoilprep import Airfoil
    from ccblade.ccblade import CCAirfoil

    f = os.path.join(d, "foil.dat")
    t = damage(case)
    with open(f, "w", newline="\r\n" if case["crlf"] else None) as g:
        g.write(t)
    good = case["mode"] in ("tail", "short end", "fewer")
    if good:
        P = [dict(p, **{k: [float(c % v) for v in p[k]] for k, c in zip(("alpha", "cl", "cd", "cm"), case["fmt"])}) for p in case["P"]]
        if case["mode"] == "fewer":
            P = P[:max(1, len(P) - case["more"])]
        with sut("reading a whole file (%s)" % case["mode"]):
            af = Airfoil.initFromAerodynFile(f)
        c14.compare(af, P, "file (%s)" % case["mode"], 1e-12)
        return info(False, [case["mode"]], 1)
    for reader in (Airfoil.initFromAerodynFile, CCAirfoil.initFromAerodynFile):
        o = attempt(reader, f)
        if o is not None:
            n = [len(p.alpha) for p in o.polars] if hasattr(o, "polars") else "?"
            raise Violation("a damaged file (%s) of tables with %s rows was read without an error, as tables with %s rows; it ends in %r" % (
                case["mode"], [len(p["alpha"]) for p in case["P"]], n, t[-40:]))
    return info(True, [case["mode"]], 2)
