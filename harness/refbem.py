"""Independent reference model of the blade element momentum equations.

Written from the published equations (Ning 2013, Buhl 2005) in plain NumPy and
usable with complex-step arguments, so that the same code yields values and
exact derivatives.  Nothing here calls the code under test except through the
airfoil objects the caller supplies (``evaluate(alpha, Re)`` only).
"""
import numpy as np

H = 1e-30  # complex step


# ---- complex-step safe primitives ---------------------------------------
def _cplx(f, df, x):
    x = np.asarray(x)
    if np.iscomplexobj(x):
        xr = x.real
        return f(xr) + 1j * (x.imag * df(xr))
    return f(x)


def cacos(x):
    return _cplx(np.arccos, lambda t: -1.0 / np.sqrt(1.0 - t * t), x)


def catan2(y, x):
    y = np.asarray(y)
    x = np.asarray(x)
    if np.iscomplexobj(y) or np.iscomplexobj(x):
        yr, xr = y.real, x.real
        d = xr * xr + yr * yr
        return np.arctan2(yr, xr) + 1j * ((xr * y.imag - yr * x.imag) / d)
    return np.arctan2(y, x)


def csqrt(x):
    return _cplx(np.sqrt, lambda t: 0.5 / np.sqrt(t), x)


def cpow(base, e):
    base = np.asarray(base)
    e = np.asarray(e)
    if np.iscomplexobj(base) or np.iscomplexobj(e):
        b, ex = base.real, e.real
        v = b ** ex
        return v + 1j * (v * (ex * base.imag / b + e.imag * np.log(b)))
    return base ** e


# ---- airfoils -------------------------------------------------------------
def af_values(afs, alpha, Re, slopes=None):
    """cl, cd for station i of ``afs`` at alpha[..., i], Re[..., i].

    ``alpha``/``Re`` may be complex (steps); the real part must then be the same
    along the leading axes and ``slopes`` gives (cl, cd, dcl_da, dcl_dR, dcd_da,
    dcd_dR) per station.
    """
    if slopes is not None:
        cl, cd, la, lr, da, dr = slopes
        ai = np.imag(alpha)
        ri = np.imag(Re)
        return cl + 1j * (la * ai + lr * ri), cd + 1j * (da * ai + dr * ri)
    n = len(afs)
    cl = np.zeros(n)
    cd = np.zeros(n)
    for i in range(n):
        v = afs[i].evaluate(float(alpha[i]), float(Re[i]))
        cl[i] = float(np.squeeze(v[0]))
        cd[i] = float(np.squeeze(v[1]))
    return cl, cd


def _scal(x):
    return float(np.squeeze(x))


def af_slopes(af, alpha, Re, ha=2e-5, hr=2e-5):
    """Value and slopes of what ``af.evaluate`` returns, by 4th-order central
    differences of its values; also returns a kink estimate (difference between
    one-sided slopes, relative), used to set aside non-smooth points."""
    def ev(a, r):
        v = af.evaluate(a, r)
        return np.array([_scal(v[0]), _scal(v[1])])

    v0 = ev(alpha, Re)

    def slope(fn, h):
        p1, m1, p2, m2 = fn(h), fn(-h), fn(2 * h), fn(-2 * h)
        d = (8 * (p1 - m1) - (p2 - m2)) / (12 * h)
        # one-sided second-order slopes
        right = (-3 * v0 + 4 * p1 - p2) / (2 * h)
        left = (3 * v0 - 4 * m1 + m2) / (2 * h)
        return d, np.abs(right - left)

    da, ka = slope(lambda h: ev(alpha + h, Re), ha)
    hR = hr * abs(Re) if Re else 1.0
    dR, kR = slope(lambda h: ev(alpha, Re + h), hR)
    return (v0[0], v0[1], da[0], dR[0], da[1], dR[1]), (ka, kR * abs(Re))


# ---- geometry & kinematics -----------------------------------------------
def curvature(r, xc, yc, precone):
    """azimuthal coordinates, coning angle and arc length of the blade axis.
    Station index is the last axis."""
    sp, cp = np.sin(precone), np.cos(precone)
    x = -r * sp + xc * cp
    z = r * cp + xc * sp
    y = yc + 0 * x
    seg = catan2(-(x[..., 1:] - x[..., :-1]), z[..., 1:] - z[..., :-1])
    cone = np.concatenate((seg[..., :1], 0.5 * (seg[..., :-1] + seg[..., 1:]), seg[..., -1:]), axis=-1)
    ds = csqrt((xc[..., 1:] - xc[..., :-1]) ** 2 + (yc[..., 1:] - yc[..., :-1]) ** 2 + (r[..., 1:] - r[..., :-1]) ** 2)
    return x, y, z, cone, ds


def wind(r, xc, yc, precone, yaw, tilt, az, Uinf, Omega, hubHt, shear):
    """Relative velocity components in the blade frame.  All angles in rad,
    Omega in RPM; scalars may be shaped (..., 1)."""
    x, y, z, cone, _ = curvature(r, xc, yc, precone)
    om = Omega * np.pi / 30.0
    sa, ca, st, ct, sy, cy = np.sin(az), np.cos(az), np.sin(tilt), np.cos(tilt), np.sin(yaw), np.cos(yaw)
    # height of the section above the hub: azimuth frame -> hub frame -> yaw frame
    zh = z * ca + y * sa
    height = zh * ct - x * st
    V = Uinf * cpow(1 + height / hubHt, shear + 0 * height)
    # wind vector (V,0,0): wind -> yaw -> hub(tilt) -> azimuth -> blade(cone)
    ux, uy, uz = V * cy, -V * sy, 0 * V
    hx, hy, hz = ux * ct - uz * st, uy, ux * st + uz * ct
    ax, ay, az_ = hx, hy * ca + hz * sa, -hy * sa + hz * ca
    # blade rotates with the rotor: relative wind is -Omega x position
    bx, by, bz = ax + 0 * z, ay + om * z, az_ - om * y
    sc, cc = np.sin(cone), np.cos(cone)
    vx = bx * cc + bz * sc
    vy = by
    return vx, vy


# ---- BEM -------------------------------------------------------------------
def induction(r, chord, Rhub, Rtip, phi, cl, cd, B, Vx, Vy, usecd, tiploss, hubloss, wakerotation):
    """residual, a, ap for inflow angle phi>0."""
    s, c = np.sin(phi), np.cos(phi)
    drag = cd if usecd else 0.0
    cn = cl * c + drag * s
    ct = cl * s - drag * c
    sabs = np.where(np.real(s) < 0, -s, s)
    F = 1.0
    if tiploss:
        F = F * 2.0 / np.pi * cacos(np.exp(-(B / 2.0) * (Rtip - r) / (r * sabs)))
    if hubloss:
        F = F * 2.0 / np.pi * cacos(np.exp(-(B / 2.0) * (r - Rhub) / (Rhub * sabs)))
    solidity = B * chord / (2.0 * np.pi * r)
    k = solidity * cn / (4.0 * F * s * s)
    kpc = solidity * ct / (4.0 * F * s)  # kp * cos(phi)
    kr = np.real(k)
    # momentum region, and Buhl's empirical region written without its removable singularity
    with np.errstate(all="ignore"):
        a_mom = k / (1.0 + k)
        F_ = F + 0 * k
        g2 = 2.0 * F_ * k - (4.0 / 3.0 - F_) * F_
        g2s = np.where(np.real(g2) > 0, g2, 1.0)
        rt = csqrt(g2s)
        a_buhl = 1.0 - 1.0 / (rt + 5.0 / 3.0 - F_)
        a_brake = np.where(kr > 1.0, k / (k - 1.0), 0.0)
    brake = np.real(phi) + 0 * kr <= 0
    a = np.where(brake, a_brake, np.where(kr <= 2.0 / 3.0, a_mom, a_buhl))
    inv1ma = np.where(brake, 1.0 - k, np.where(kr <= 2.0 / 3.0, 1.0 + k, rt + 5.0 / 3.0 - F_))
    if wakerotation:
        kp = kpc / c
        ap = kp / (1.0 - kp)
    else:
        kpc = 0.0 * kpc
        ap = 0.0 * kpc
    fzero = s * inv1ma - (Vx / Vy) * (c - kpc)
    return fzero, a, ap, k


def relwind(phi, a, ap, Vx, Vy, pitch, chord, theta, rho, mu):
    alpha = phi - theta - pitch
    W = csqrt((Vx * (1 - a)) ** 2 + (Vy * (1 + ap)) ** 2)
    ar, apr = np.real(a), np.real(ap)
    with np.errstate(all="ignore"):
        W = np.where(np.abs(ar) > 10, Vy * (1 + ap) / np.cos(phi),
                     np.where(np.abs(apr) > 10, Vx * (1 - a) / np.sin(phi), W))
    return alpha, W, rho * W * chord / mu


class Rotor:
    """Reference rotor.  ``spec`` is a plain dict in the user's units (deg, RPM)."""

    VECS = ("r", "chord", "theta", "precurve", "presweep")
    SCALS = ("precone", "tilt", "hubHt", "Rhub", "Rtip", "precurveTip", "presweepTip", "yaw", "shear")
    OPS = ("Uinf", "Omega", "pitch", "azimuth")

    def __init__(self, spec, afs):
        self.s = spec
        self.afs = afs
        self.opts = dict(usecd=spec.get("usecd", True), tiploss=spec.get("tiploss", True),
                         hubloss=spec.get("hubloss", True), wakerotation=spec.get("wakerotation", True))
        n = len(spec["r"])
        self.n = n
        z = np.zeros(n)
        g = lambda k: np.array(spec[k], dtype=float) if spec.get(k) is not None else z.copy()
        self.v = {k: g(k) for k in self.VECS}
        self.c = dict(precone=spec.get("precone", 0.0), tilt=spec.get("tilt", 0.0), hubHt=spec.get("hubHt", 80.0),
                      Rhub=spec["Rhub"], Rtip=spec["Rtip"],
                      precurveTip=spec.get("precurveTip", 0.0) if spec.get("precurve") is not None else 0.0,
                      presweepTip=spec.get("presweepTip", 0.0) if spec.get("presweep") is not None else 0.0,
                      yaw=spec.get("yaw", 0.0), shear=spec.get("shear", 0.2))
        self.B = spec.get("B", 3)
        self.rho = spec.get("rho", 1.225)
        self.mu = spec.get("mu", 1.81206e-5)
        self.iterRe = spec.get("iterRe", 1)
        ns = spec.get("nSector", 8)
        self.nSector = 1 if (self.c["tilt"] == 0 and self.c["yaw"] == 0 and self.c["shear"] == 0) else max(4, ns)
        self.R = self.c["Rtip"] * np.cos(np.deg2rad(self.c["precone"])) + self.c["precurveTip"] * np.sin(
            np.deg2rad(self.c["precone"]))

    # -- kinematics ---------------------------------------------------------
    def wind(self, Uinf, Omega, azimuth):
        d = np.deg2rad
        c = self.c
        return wind(self.v["r"], self.v["precurve"], self.v["presweep"], d(c["precone"]), d(c["yaw"]), d(c["tilt"]),
                    d(azimuth), Uinf, Omega, c["hubHt"], c["shear"])

    # -- section state at a given inflow angle --------------------------------
    def section(self, phi, pitch, Vx, Vy, rotating=True):
        """Everything that follows from phi (arrays over stations)."""
        v, c = self.v, self.c
        th = np.deg2rad(v["theta"])
        p = np.deg2rad(pitch)
        n = self.n
        a = np.zeros(n)
        ap = np.zeros(n)
        fz = np.zeros(n)
        k = np.zeros(n)
        if rotating:
            for _ in range(self.iterRe):
                alpha, W, Re = relwind(phi, a, ap, Vx, Vy, p, v["chord"], th, self.rho, self.mu)
                cl, cd = af_values(self.afs, alpha, Re)
                fz, a, ap, k = induction(v["r"], v["chord"], c["Rhub"], c["Rtip"], phi, cl, cd, self.B, Vx, Vy,
                                         **self.opts)
            alpha, W, Re = relwind(phi, a, ap, Vx, Vy, p, v["chord"], th, self.rho, self.mu)
        else:
            alpha, W, Re = relwind(phi, a, ap, Vx, Vy, p, v["chord"], th, self.rho, self.mu)
            cl, cd = af_values(self.afs, alpha, Re)
        s_, c_ = np.sin(phi), np.cos(phi)
        cn = cl * c_ + cd * s_
        ct = cl * s_ - cd * c_
        q = 0.5 * self.rho * W ** 2
        return dict(a=a, ap=ap, alpha=np.rad2deg(alpha), W=W, Re=Re, Cl=cl, Cd=cd, Cn=cn, Ct=ct,
                    Np=cn * q * v["chord"], Tp=ct * q * v["chord"], fzero=fz, k=k)

    def delicate(self, phi, k):
        """Stations next to a switch of the induction model, where slopes jump."""
        c = self.c
        s = np.abs(np.sin(phi))
        F = np.ones(self.n)
        r = self.v["r"]
        if self.opts["tiploss"]:
            F = F * 2 / np.pi * np.arccos(np.exp(-(self.B / 2.0) * (c["Rtip"] - r) / (r * s)))
        if self.opts["hubloss"]:
            F = F * 2 / np.pi * np.arccos(np.exp(-(self.B / 2.0) * (r - c["Rhub"]) / (c["Rhub"] * s)))
        g3 = 2 * F * k - (25.0 / 9 - 2 * F)
        return (np.abs(k - 2.0 / 3) < 1e-6) | (np.abs(g3) < 1e-5)

    def residual_at(self, i, phi, pitch, Vx, Vy):
        """Residual at station i for an array of inflow angles."""
        v, c = self.v, self.c
        phi = np.atleast_1d(np.asarray(phi, float))
        th = np.deg2rad(v["theta"][i])
        p = np.deg2rad(pitch)
        a = np.zeros_like(phi)
        ap = np.zeros_like(phi)
        for _ in range(self.iterRe):
            alpha, W, Re = relwind(phi, a, ap, Vx[i], Vy[i], p, v["chord"][i], th, self.rho, self.mu)
            cl, cd = af_values([self.afs[i]] * len(phi), alpha, Re)
            fz, a, ap, k = induction(v["r"][i], v["chord"][i], c["Rhub"], c["Rtip"], phi, cl, cd, self.B, Vx[i],
                                     Vy[i], **self.opts)
        return fz

    # -- integration ----------------------------------------------------------
    def integrate(self, Np, Tp, v=None, c=None, prec=None):
        """One blade: thrust, side force, vertical force, torque, flap moment.
        Loads vanish at hub and tip; trapezoidal rule along the blade axis."""
        v = v or self.v
        c = c or self.c
        def pad(x_, lo, hi):
            return np.concatenate((np.asarray(lo) + 0 * x_[..., :1], x_, np.asarray(hi) + 0 * x_[..., :1]), axis=-1)

        r = pad(v["r"], c["Rhub"], c["Rtip"])
        xc = pad(v["precurve"], 0.0, c["precurveTip"])
        yc = pad(v["presweep"], 0.0, c["presweepTip"])
        N = pad(Np, 0.0, 0.0)
        T = pad(Tp, 0.0, 0.0)
        prec = np.deg2rad(c["precone"]) if prec is None else prec
        x, y, z, cone, ds = curvature(r, xc, yc, prec)
        trap = lambda f: np.sum(0.5 * (f[..., 1:] + f[..., :-1]) * ds, axis=-1)
        return (trap(N * np.cos(cone)), trap(T + 0 * z), trap(N * np.sin(cone)), trap(T * z), trap(N * z))

    KEYS = ("T", "Y", "Z", "Q", "My", "Mz", "Mb")

    def rotor_sum(self, parts, azis):
        """Combine per-azimuth blade integrals into rotor quantities."""
        ns = len(azis)
        out = {k: 0.0 for k in self.KEYS}
        for (t, y, z, q, m), az in zip(parts, azis):
            ca, sa = np.cos(az), np.sin(az)
            out["T"] = out["T"] + self.B * t / ns
            out["Y"] = out["Y"] + self.B * (y * ca - z * sa) / ns
            out["Z"] = out["Z"] + self.B * (z * ca + y * sa) / ns
            out["Q"] = out["Q"] + self.B * q / ns
            out["My"] = out["My"] + self.B * m * ca / ns
            out["Mz"] = out["Mz"] + self.B * m * sa / ns
            out["Mb"] = out["Mb"] + m / ns
        return out

    def azimuths(self):
        return 2 * np.pi * np.arange(self.nSector) / self.nSector

    # -- exact derivatives ----------------------------------------------------
    def variables(self):
        out = []
        for k in self.VECS:
            out += [(k, j) for j in range(self.n)]
        out += [(k, None) for k in self.SCALS + self.OPS]
        return out

    def dloads(self, phi, Uinf, Omega, pitch, azimuth):
        """Total derivatives of Np, Tp at fixed equations (iterRe=1).

        phi: solution at each station.  Returns dict with perturbed complex arrays
        Np, Tp (nvar, n), plus geometry, condition diagnostics."""
        vars_ = self.variables()
        nv = len(vars_)
        n = self.n
        V = {k: np.tile(self.v[k].astype(complex), (nv, 1)) for k in self.VECS}
        C = {k: np.full((nv, 1), complex(self.c[k])) for k in self.SCALS}
        U0 = np.atleast_1d(np.asarray(Uinf, complex))
        O = dict(Uinf=np.tile(U0, (nv, 1)), Omega=np.full((nv, 1), complex(Omega)),
                 pitch=np.full((nv, 1), complex(pitch)), azimuth=np.full((nv, 1), complex(azimuth)))
        for row, (k, j) in enumerate(vars_):
            if j is not None:
                V[k][row, j] += 1j * H
            elif k in C:
                C[k][row, 0] += 1j * H
            else:
                O[k][row, :] += 1j * H
        d = np.pi / 180.0
        Vx, Vy = wind(V["r"], V["precurve"], V["presweep"], C["precone"] * d, C["yaw"] * d, C["tilt"] * d,
                      O["azimuth"] * d, O["Uinf"], O["Omega"], C["hubHt"], C["shear"])
        th = V["theta"] * d
        p = O["pitch"] * d
        rotating = Omega != 0.0
        vx0, vy0 = Vx[0].real, Vy[0].real
        # slopes of the polars where the code evaluates them (a = ap = 0 for the first pass)
        al0 = phi - th[0].real - p[0].real
        _, _, Re0 = relwind(phi, 0.0 * phi, 0.0 * phi, vx0, vy0, p[0].real, V["chord"][0].real, th[0].real, self.rho,
                            self.mu)
        sl = []
        kinks = []
        for i in range(n):
            s_, kk = af_slopes(self.afs[i], float(al0[i]), float(Re0[i]))
            sl.append(s_)
            kinks.append(kk)
        slopes = tuple(np.array(x) for x in zip(*sl))

        def state(phi_c, Vx, Vy, th, p, chord, r, Rhub, Rtip):
            z = 0.0 * phi_c
            alpha, W, Re = relwind(phi_c, z, z, Vx, Vy, p, chord, th, self.rho, self.mu)
            cl, cd = af_values(self.afs, alpha, Re, slopes)
            if rotating:
                fz, a, ap, k = induction(r, chord, Rhub, Rtip, phi_c, cl, cd, self.B, Vx, Vy, **self.opts)
            else:
                fz, a, ap = z, z, z
            _, W, _ = relwind(phi_c, a, ap, Vx, Vy, p, chord, th, self.rho, self.mu)
            s_, c_ = np.sin(phi_c), np.cos(phi_c)
            q = 0.5 * self.rho * W ** 2 * chord
            return fz, (cl * c_ + cd * s_) * q, (cl * s_ - cd * c_) * q

        args = (th, p, V["chord"], V["r"], C["Rhub"], C["Rtip"])
        if rotating:
            f1, _, _ = state(phi + 0j * Vx.real, Vx, Vy, *args)
            dR = f1.imag / H
            f2, _, _ = state(phi + 1j * H, vx0 + 0j, vy0 + 0j, *(np.asarray(a_)[0].real + 0j for a_ in args))
            Rphi = f2.imag / H
            dphi = -dR / Rphi
        else:
            Rphi = np.ones(n)
            dphi = np.zeros((nv, n))
        _, Np, Tp = state(phi + 1j * H * dphi, Vx, Vy, *args)
        return dict(vars=vars_, Np=Np, Tp=Tp, V=V, C=C, Rphi=Rphi, dphi=dphi, kinks=kinks, Vx=vx0, Vy=vy0)

    def dintegrate(self, D):
        """Complex-step rotor integrals from a ``dloads`` result: (5, nv)."""
        d = np.pi / 180.0
        return self.integrate(D["Np"], D["Tp"], v=D["V"], c=D["C"], prec=D["C"]["precone"] * d)
