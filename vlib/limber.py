"""Independent reference for the angular power spectra: scalar definitions and high-order quadrature, no repository code."""
import numpy as np
from pathlib import Path
from scipy import interpolate

C_KM_S = 299792.458
_GLX, _GLW = np.polynomial.legendre.leggauss(12)


def e_of_z(z, p):
    z = np.asarray(z, float)
    de = p["OmDE"] * (1 + z) ** (3 * (1 + p["w0"] + p["wa"])) * np.exp(-3 * p["wa"] * z / (1 + z))
    return np.sqrt(p["Omm"] * (1 + z) ** 3 + de + (1 - p["Omm"] - p["OmDE"]) * (1 + z) ** 2)


def hubble(z, p):
    return 100 * p["h"] * e_of_z(z, p)


def _panel(f, a, b):
    x = 0.5 * (b - a) * _GLX + 0.5 * (a + b)
    return 0.5 * (b - a) * float(np.sum(_GLW * f(x)))


def r_tilde(zgrid, p):
    out, acc, prev = [], 0.0, 0.0
    for z in zgrid:
        acc += _panel(lambda x: 1.0 / e_of_z(x, p), prev, z)
        prev = z
        out.append(acc)
    return np.array(out)


def distance(zgrid, p):
    return C_KM_S / (100 * p["h"]) * r_tilde(zgrid, p)


def simpson(y, x):
    """composite Simpson; the last interval of an even number of points by the parabola through the last three"""
    n = len(x)
    if n == 1:
        return 0.0
    if n == 2:
        return 0.5 * (x[1] - x[0]) * (y[0] + y[1])

    def odd(y, x):
        s = 0.0
        for i in range(0, len(x) - 2, 2):
            h0, h1 = x[i + 1] - x[i], x[i + 2] - x[i + 1]
            s += (h0 + h1) / 6 * ((2 - h1 / h0) * y[i] + (h0 + h1) ** 2 / (h0 * h1) * y[i + 1] + (2 - h0 / h1) * y[i + 2])
        return s

    if n % 2:
        return odd(y, x)
    h0, h1 = x[-2] - x[-3], x[-1] - x[-2]
    return (odd(y[:-1], x[:-1]) + (2 * h1 ** 2 + 3 * h0 * h1) / (6 * (h0 + h1)) * y[-1]
            + (h1 ** 2 + 3 * h0 * h1) / (6 * h0) * y[-2] - h1 ** 3 / (6 * h0 * (h0 + h1)) * y[-3])


NC = {1: [1 / 2, 1 / 2], 2: [1 / 3, 4 / 3, 1 / 3], 3: [3 / 8, 9 / 8, 9 / 8, 3 / 8],
      4: [14 / 45, 64 / 45, 24 / 45, 64 / 45, 14 / 45],
      5: [95 / 288, 375 / 288, 250 / 288, 250 / 288, 375 / 288, 95 / 288],
      6: [41 / 140, 216 / 140, 27 / 140, 272 / 140, 27 / 140, 216 / 140, 41 / 140]}


def newton_cotes(y, dx, order):
    n, i, s = len(y) - 1, 0, 0.0
    while n - i >= order:
        s += dx * sum(w * y[i + k] for k, w in enumerate(NC[order]))
        i += order
    if i < n:
        s += dx * sum(w * y[i + k] for k, w in enumerate(NC[n - i]))
    return s


def romberg(y, dx):
    n = len(y) - 1
    k = int(round(np.log2(n)))
    r = [[n * dx * (y[0] + y[-1]) / 2]]
    for i in range(1, k + 1):
        step = n >> i
        t = 0.5 * r[-1][0] + step * dx * sum(y[j] for j in range(step, n, 2 * step))
        row = [t]
        for m in range(1, i + 1):
            row.append(row[m - 1] + (row[m - 1] - r[-1][m - 1]) / (4 ** m - 1))
        r.append(row)
    return r[-1][-1]


def cl_integral(y, x, method):
    if method == "simpson":
        return simpson(y, x)
    if method.startswith("newton-cotes"):
        return newton_cotes(y, x[1] - x[0], int(method.split("_")[-1]))
    if method == "romberg":
        return romberg(y, x[1] - x[0])
    if method == "quad":       # of the piecewise linear interpolant
        return float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(x)))
    raise KeyError(method)


_LUM = {}


def mean_luminosity(z):
    f = Path("/repo/seyfert/data/scaledmeanlum-E2Sa.dat")
    if "t" not in _LUM:
        import seyfert.utils.filesystem_utils as fsu
        _LUM["t"] = np.loadtxt(fsu.default_data_dir() / "scaledmeanlum-E2Sa.dat")
    t = _LUM["t"]
    zz, ll = t[:, 0], t[:, 1]
    out = np.interp(z, zz, ll)
    lo, hi = z < zz[0], z > zz[-1]
    out = np.where(lo, ll[0] + (z - zz[0]) * (ll[1] - ll[0]) / (zz[1] - zz[0]), out)
    return np.where(hi, ll[-1] + (z - zz[-1]) * (ll[-1] - ll[-2]) / (zz[-1] - zz[-2]), out)


def galaxy_bias(z, edges, values, model):
    """values[i][z]; at an edge either neighbour is allowed: (lower, upper)"""
    n = len(edges) - 1
    if model == "constant":
        return np.repeat(np.array(values, float)[:, None], len(z), axis=1)
    out = np.zeros(len(z))
    for k, x in enumerate(z):
        i = 0
        while i < n - 1 and x >= edges[i + 1]:
            i += 1
        out[k] = values[i]
    return np.repeat(out[None], n, axis=0)


def weights(world, probe, p, bias_values, nuis, n_iz, ps_lin, wl_method="simpson"):
    z = world.z
    h = hubble(z, p)
    if probe != "WL":
        b = galaxy_bias(z, world.edges[probe], bias_values, world.bias_model)
        return h / C_KM_S * n_iz * b
    r = distance(z, p)
    eff = np.zeros_like(n_iz)
    for i in range(len(n_iz)):
        for k in range(len(z)):
            y = n_iz[i, k:] * (1 - r[k] / r[k:])
            eff[i, k] = simpson(y, z[k:])
    w = 1.5 * p["Omm"] * (1 + z) * (100 * p["h"] / C_KM_S) ** 2 * r * eff
    if world.ia:
        d = np.sqrt(ps_lin[:, 0] / ps_lin[0, 0])
        f = (1 + z) ** nuis["etaIA"] * mean_luminosity(z) ** nuis["betaIA"]
        w = w - nuis["aIA"] * nuis["cIA"] * f * p["Omm"] * h * n_iz / (d * C_KM_S)
    return w


class LimberCache(dict):
    pass


_SPL = LimberCache()


def limber_power(world, p, ell, key):
    """P((l+1/2)/r, z) on the grid, by the configured spline of log10 P in (z, log10 k)"""
    kx, ky, smooth = world.spline
    key = (key, world.spline)
    if key not in _SPL:
        if len(_SPL) > 400:
            _SPL.clear()
        from vlib.world import power
        lin = power(world.k, world.z, p)
        nl = lin * (1 + 0.5 * (world.k / (0.3 + world.k)) ** 2)
        _SPL[key] = (lin, interpolate.RectBivariateSpline(world.z, np.log10(world.k), np.log10(nl), kx=kx, ky=ky, s=smooth))
    lin, spl = _SPL[key]
    r = distance(world.z, p)
    return np.array([float(10 ** spl(z, np.log10((ell + 0.5) / rr))[0, 0]) for z, rr in zip(world.z, r)])


def spectrum(world, a, b, p, biases, nuis, n_iz, ells, cache_key, method=None):
    """C_ij(l) of probes a, b for cosmological values p, bias values {probe: list}, lensing nuisances"""
    from vlib.world import power
    z = world.z
    lin = power(world.k, z, p)
    wa = weights(world, a, p, biases.get(a), nuis, n_iz[a], lin)
    wb = weights(world, b, p, biases.get(b), nuis, n_iz[b], lin)
    r, h = distance(z, p), hubble(z, p)
    method = method or world.cl_method
    out = np.zeros((len(ells), len(wa), len(wb)))
    for l, ell in enumerate(ells):
        pk = limber_power(world, p, ell, cache_key)
        for i in range(len(wa)):
            for j in range(len(wb)):
                if a == b == "GCsp" and i != j and not world.offdiag:
                    continue
                out[l, i, j] = cl_integral(C_KM_S / (h * r ** 2) * wa[i] * wb[j] * pk, z, method)
    return out
