"""Independent reference models, written from the documentation (docs/*.rst, the theory paper and the AirfoilPrep
publications), not from the code under test.  Everything here is plain numpy and imports nothing from ccblade."""
import numpy as np


# ---------------------------------------------------------------- file format
def read_aerodyn(path):
    """independent AeroDyn v13 airfoil table reader: list of (Re, [8 params], array(alpha, cl, cd, cm))"""
    with open(path) as f:
        L = f.read().split("\n")
    nt = int(L[3].split()[0])
    k = 4
    out = []
    for _ in range(nt):
        Re = float(L[k].split()[0]) * 1e6
        par = [float(L[k + 1 + j].split()[0]) for j in range(8)]
        k += 9
        rows = []
        while "EOT" not in L[k]:
            rows.append([float(v) for v in L[k].split()])
            k += 1
        k += 1
        out.append((Re, par, np.array(rows)))
    return out


def read_aerodyn_grid(path):
    t = read_aerodyn(path)
    al = np.unique(np.concatenate([x[2][:, 0] for x in t]))
    Re = [x[0] for x in t]
    c = [np.column_stack([np.interp(al, x[2][:, 0], x[2][:, j]) for x in t]) for j in (1, 2, 3)]
    return al, Re, c[0], c[1], c[2]


# ---------------------------------------------------------------- frames (docs/csystem.rst)
def Rz(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.0]])


def Ry(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[c, 0, -s], [0, 1.0, 0], [s, 0, c]])


def Rx(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[1.0, 0, 0], [0, c, s], [0, -s, c]])


# passive rotations, components in the new frame = M @ components in the old frame
def wind_to_yaw(psi):
    return Rz(psi)


def yaw_to_hub(tilt):
    return Ry(tilt)


def hub_to_azimuth(az):
    return Rx(az)


def azimuth_to_blade(cone):
    return Ry(-cone)


# ---------------------------------------------------------------- geometry and inflow
def nudge(spec):
    """where the analysed stations are: as given, except that a station lying on the hub / tip is moved inward"""
    r = np.array(spec["r"], float)
    n = len(r)
    pc = np.zeros(n) if spec["precurve"] is None else np.array(spec["precurve"], float)
    ps = np.zeros(n) if spec["presweep"] is None else np.array(spec["presweep"], float)
    return r, pc, ps


def az_coords(r, pc, ps, precone):
    M = azimuth_to_blade(precone).T
    return M @ np.vstack([pc, ps, r])


def cone_angles(xyz):
    x, z = xyz[0], xyz[2]
    seg = np.arctan2(-(np.diff(x)), np.diff(z))
    return np.r_[seg[0], 0.5 * (seg[1:] + seg[:-1]), seg[-1]]


def inflow(r, pc, ps, precone, tilt, yaw, azimuth, U, Omega, hubHt, shear):
    """Vx, Vy at each station, angles in rad, Omega in rpm; U scalar or per station"""
    xyz = az_coords(r, pc, ps, precone)
    cone = cone_angles(xyz)
    H = hub_to_azimuth(azimuth).T @ xyz  # hub frame
    Y = yaw_to_hub(tilt).T @ H  # yaw frame: z is vertical
    V = np.asarray(U) * (1 + Y[2] / hubHt) ** shear
    Vx = np.zeros(len(r))
    Vy = np.zeros(len(r))
    w = np.array([Omega * np.pi / 30, 0, 0])
    V = V * np.ones(len(r))
    for i in range(len(r)):
        wind_az = hub_to_azimuth(azimuth) @ yaw_to_hub(tilt) @ wind_to_yaw(yaw) @ np.array([V[i], 0, 0])
        rot = -np.cross(w, xyz[:, i])
        b = azimuth_to_blade(cone[i]) @ (wind_az + rot)
        Vx[i], Vy[i] = b[0], b[1]
    return Vx, Vy


# ---------------------------------------------------------------- momentum balance
def prandtl(B, r, Rhub, Rtip, phi, tip, hub):
    s = abs(np.sin(phi))
    F = 1.0
    if tip:
        F *= 2 / np.pi * np.arccos(np.exp(-B / 2 * (Rtip - r) / (r * s)))
    if hub:
        F *= 2 / np.pi * np.arccos(np.exp(-B / 2 * (r - Rhub) / (Rhub * s)))
    return F


def thrust_coefficient(a, F):
    """local CT(a): momentum theory to a = 0.4, Buhl's empirical curve above, propeller brake for a > 1"""
    if a > 1:
        return 4 * F * a * (a - 1)
    if a <= 0.4:
        return 4 * F * a * (1 - a)
    return 8.0 / 9 + (4 * F - 40.0 / 9) * a + (50.0 / 9 - 4 * F) * a * a


# ---------------------------------------------------------------- integration
def integrate(Np, Tp, r, pc, ps, precone, Rhub, Rtip, pct, pst):
    """hub-frame T, side, vert, Q, and root flap moment of one blade; loads vanish at hub and tip"""
    rf = np.r_[Rhub, r, Rtip]
    cf = np.r_[0.0, pc, pct]
    sf = np.r_[0.0, ps, pst]
    N = np.r_[0.0, Np, 0.0]
    T = np.r_[0.0, Tp, 0.0]
    xyz = az_coords(rf, cf, sf, precone)
    cone = cone_angles(xyz)
    ds = np.sqrt(np.diff(rf) ** 2 + np.diff(cf) ** 2 + np.diff(sf) ** 2)

    def tz(y):
        return float(np.sum(0.5 * (y[1:] + y[:-1]) * ds))

    z = xyz[2]
    return tz(N * np.cos(cone)), tz(T), tz(N * np.sin(cone)), tz(T * z), tz(N * z)


def rotor_reference(spec, stations, loads_at, U, Omega, nSector):
    """azimuthal average of B blades; loads_at(azimuth_deg) -> (Np, Tp)"""
    r, pc, ps = stations
    pre = np.radians(spec["precone"])
    pct = spec["precurveTip"] if spec["precurve"] is not None else 0.0
    pst = spec["presweepTip"] if spec["presweep"] is not None else 0.0
    acc = np.zeros(7)
    B = spec["B"]
    for k in range(nSector):
        az = 2 * np.pi * k / nSector
        Np, Tp = loads_at(np.degrees(az))
        T, Y, Z, Q, M = integrate(Np, Tp, r, pc, ps, pre, spec["Rhub"], spec["Rtip"], pct, pst)
        ca, sa = np.cos(az), np.sin(az)
        acc += np.array([B * T, B * (Y * ca - Z * sa), B * (Z * ca + Y * sa), B * Q, B * M * ca, B * M * sa, M]) / nSector
    d = dict(zip(["T", "Y", "Z", "Q", "My", "Mz", "Mb"], acc))
    d["P"] = d["Q"] * Omega * np.pi / 30
    return d


def rotor_radius(spec):
    p = np.radians(spec["precone"])
    pct = spec["precurveTip"] if spec["precurve"] is not None else 0.0
    return spec["Rtip"] * np.cos(p) + pct * np.sin(p)


# ---------------------------------------------------------------- one blade section
def induction(phi, cl, cd, r, chord, Rhub, Rtip, B, Vx, Vy, tip=True, hub=True, wake=True, usecd=True):
    """induction factors and residual at an inflow angle, from the momentum balances (not from the paper's k, kp code)"""
    s, c = np.sin(phi), np.cos(phi)
    cn = cl * c + (cd * s if usecd else 0.0)
    ct = cl * s - (cd * c if usecd else 0.0)
    F = prandtl(B, r, Rhub, Rtip, phi, tip, hub)
    sol = B * chord / (2 * np.pi * r)
    k = sol * cn / (4 * F * s * s)
    kp = sol * ct / (4 * F * s * c)
    if phi > 0:
        if k <= 2.0 / 3:
            a = k / (1 + k)
        else:  # 4 F k (1-a)^2 = 8/9 + (4F - 40/9) a + (50/9 - 4F) a^2, the root between 0.4 and 1
            A = 50.0 / 9 - 4 * F - 4 * F * k
            Bq = 4 * F - 40.0 / 9 + 8 * F * k
            C = 8.0 / 9 - 4 * F * k
            D = np.sqrt(max(Bq * Bq - 4 * A * C, 0.0))
            # cancellation-free form of the root that tends to 0.4 as k -> 2/3
            q = -0.5 * (Bq + D)
            a = C / q
        a_ok = True
    else:
        a = k / (k - 1) if k > 1 else 0.0
        a_ok = k > 1
    ap = kp / (1 - kp)
    if not wake:
        ap = kp = 0.0
    lam = Vy / Vx
    if phi > 0:
        R = s / (1 - a) - c / lam * (1 - kp)
    else:
        R = s * (1 - k) - c / lam * (1 - kp)
    return R, a, ap, F, k, kp, a_ok


class Section:
    """reference blade section: residual as a function of the inflow angle (radians)"""

    def __init__(self, spec, af, r, chord, theta, pitch, Vx, Vy):
        self.s, self.af, self.r, self.c, self.th, self.p, self.Vx, self.Vy = spec, af, r, chord, theta, pitch, Vx, Vy

    def coeffs(self, phi):
        s = self.s
        a = ap = 0.0
        for _ in range(s["iterRe"]):
            if abs(a) > 10:
                W = self.Vy * (1 + ap) / np.cos(phi)
            elif abs(ap) > 10:
                W = self.Vx * (1 - a) / np.sin(phi)
            else:
                W = np.hypot(self.Vx * (1 - a), self.Vy * (1 + ap))
            Re = s["rho"] * W * self.c / s["mu"]
            cl, cd = self.af.evaluate(phi - self.th - self.p, Re)
            out = induction(
                phi, float(cl), float(cd), self.r, self.c, s["Rhub"], s["Rtip"], s["B"], self.Vx, self.Vy,
                s["tiploss"], s["hubloss"], s["wakerotation"], s["usecd"],
            )
            a, ap = out[1], out[2]
        return float(cl), float(cd), Re, out

    def residual(self, phi):
        return self.coeffs(phi)[3][0]
