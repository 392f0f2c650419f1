"""Numerical building blocks: the composite Newton-Cotes rule on a basis of all integrands, axes and sizes; filters, derivatives, differences."""
import itertools
from fractions import Fraction
import numpy as np

PROPERTY = "P21"
LEVEL = "model_checking"
RULE = ("all orders x numbers of points x numbers of dimensions x integration axes x spacings: the integrator applied to every element of a "
        "basis of the integrands (every unit vector, which decides a linear rule) and to a dense integrand, against exact rational "
        "weights; all small shapes and sign patterns for the percentage differences; filters and derivatives on grids")
BOUNDS = {"quick": "orders 1-6, 2 to 21 points, 1 to 3 dimensions, 3 spacings; up to 9 points in 4 and 5 dimensions; 60 to 66, 100, 129, 301, 1000 to 1002 points",
          "thorough": "orders 1-6, 2 to 61 points, 1 to 4 dimensions, 5 spacings"}
SPACINGS = [(0.0, 1.0), (-2.0, 0.25), (1e-3, 1e-3), (5.0, 7.0), (0.0, 1e4)]


def weights(n):
    """exact closed Newton-Cotes weights on n+1 points of unit spacing (integrals of the Lagrange polynomials)"""
    out = []
    for i in range(n + 1):
        poly = [Fraction(1)]
        for j in range(n + 1):
            if j != i:
                nxt = [Fraction(0)] * (len(poly) + 1)
                for k, c in enumerate(poly):
                    nxt[k + 1] += c / (i - j)
                    nxt[k] -= c * j / (i - j)
                poly = nxt
        out.append(sum(c * Fraction(n) ** (k + 1) / (k + 1) for k, c in enumerate(poly)))
    return out


def composite(order, n):
    w = [Fraction(0)] * n
    full, rest = divmod(n - 1, order)
    base = weights(order)
    for b in range(full):
        for d in range(order + 1):
            w[b * order + d] += base[d]
    if rest:
        for d, v in enumerate(weights(rest)):
            w[n - 1 - rest + d] += v
    return np.array([float(v) for v in w])


def cases(tier):
    q = tier == "quick"
    for order in range(1, 7):
        for dims in range(1, 4 if q else 5):
            yield {"kind": "integral", "order": order, "dims": dims, "sizes": list(range(2, 22 if q else 62)), "spacings": 3 if q else 5}
        for dims in range(4 if q else 5, 6):
            yield {"kind": "integral", "order": order, "dims": dims, "sizes": list(range(2, 10)), "spacings": 1}
        yield {"kind": "integral", "order": order, "dims": 1, "sizes": [*range(60, 67), 100, 129, 301, *range(1000, 1003)], "spacings": 1}
    yield {"kind": "refused"}
    for N in range(1, 6 if q else 8):
        yield {"kind": "smoothstep", "N": N}
    yield {"kind": "tophat"}
    yield {"kind": "derivative"}
    yield {"kind": "differences", "size": 3 if q else 4}
    yield {"kind": "units"}


def run_case(case, ctx):
    globals()[case["kind"]](case, ctx)


def close(a, b, rtol=1e-12, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def integral(case, ctx):
    from seyfert.numeric.integration import CompositeNewtonCotesIntegrator as C
    order, dims = case["order"], case["dims"]
    for n in case["sizes"]:
        w = composite(order, n)
        for x0, dx in SPACINGS[:case["spacings"]]:
            x = x0 + dx * np.arange(n)
            h = x[1] - x[0]
            scale = np.abs(w).max() * h
            for axis in range(-dims, dims):
                ctx.state((order, dims, n, dx, axis))
                # the other axes hold the basis: one unit vector per line
                shape = [1, 2, 3, 2, 3][:dims]
                lines = int(np.prod([s for k, s in enumerate(shape) if k != axis % dims])) if dims > 1 else 1
                unit = 0
                dense = np.cos(1.3 * np.arange(n)) + 0.2 * np.arange(n)
                todo = list(np.eye(n)) + [dense, -2.5 * dense]
                while unit < len(todo):
                    batch = [todo[(unit + k) % len(todo)] for k in range(lines)]
                    unit += lines
                    other = [s for k, s in enumerate(shape) if k != axis % dims]
                    y = np.moveaxis(np.array(batch).reshape(other + [n]), -1, axis % dims)
                    keep = y.copy()
                    want = h * np.array([b @ w for b in batch]).reshape(other)
                    ctx.step()
                    with ctx.guard("integral", f"order {order}, {n} points, shape {y.shape}, axis {axis}"):
                        got = C(x=x, y=y, order=order, axis=axis).computeIntegral()
                        ok = np.shape(got) == tuple(other) and np.all(np.abs(got - want) <= 1e-12 * (scale * n * 10 + np.abs(want)))
                        ctx.check(ok, "integral", f"order {order}, {n} points, shape {y.shape}, axis {axis}: {got} instead of {want}")
                        ctx.check(np.array_equal(keep, y), "integrand", "the integrand was changed")
        ctx.trace()


def refused(case, ctx):
    from seyfert.numeric.integration import CompositeNewtonCotesIntegrator as C
    x = np.linspace(0, 1, 5)
    for order in (0, -1, 7, 8, 20, "two"):
        ctx.step()
        ctx.state(("order", order))
        ctx.raises(Exception, lambda: C(x=x, y=x, order=order).computeIntegral(), "order", f"order {order} accepted")
    for shape, axis in itertools.product([(5,), (4,), (6,), (5, 4), (4, 5), (2, 5, 4)], (0, 1, -1)):
        ctx.step()
        y = np.ones(shape)
        ctx.state((shape, axis))
        if axis >= len(shape):
            continue
        if shape[axis] == 5:
            with ctx.guard("length", f"{shape} {axis}"):
                C(x=x, y=y, order=2, axis=axis).computeIntegral()
        else:
            ctx.raises(Exception, lambda: C(x=x, y=y, order=2, axis=axis).computeIntegral(), "length",
                       f"shape {shape} along {axis} accepted for 5 points")
    for bad in (list(x), np.ones((5, 1))):
        ctx.raises(Exception, lambda: C(x=bad, y=x, order=2).computeIntegral(), "x", "x must be a 1-D array")
    ctx.raises(Exception, lambda: C(x=x, y=list(x), order=2).computeIntegral(), "y", "y must be an array")
    ctx.trace()


def smoothstep(case, ctx):
    from scipy import special
    from seyfert.numeric import general as nu
    N = case["N"]
    for lo, hi in ((0.0, 1.0), (-3.0, 2.0), (0.9, 1.1), (10.0, 1e3)):
        t = np.linspace(-0.5, 1.5, 81)
        x = lo + (hi - lo) * t
        keep = x.copy()
        with ctx.guard("smoothstep", f"N {N}, {lo}..{hi}"):
            y = nu.smoothstep(x, x_min=lo, x_max=hi, N=N)
            ctx.check(np.array_equal(keep, x), "argument", "the argument was changed")
            # regularised incomplete beta function: the polynomial of degree 2N+1 with N flat derivatives at both ends
            want = special.betainc(N + 1, N + 1, np.clip((x - lo) / (hi - lo), 0, 1))
            ctx.check(close(y, want, 1e-9, 1e-9), "smoothstep", f"N {N}, {lo}..{hi}: off by {np.abs(y - want).max()}")
            for k in (0, 20, 25, 40, 47, 60, 80):
                ctx.step()
                s = nu.smoothstep(float(x[k]), x_min=lo, x_max=hi, N=N)
                ctx.check(abs(s - want[k]) <= 1e-9, "scalar", f"N {N} at {x[k]}: {s} instead of {want[k]}")
            y2 = nu.smoothstep(np.array([x, x[::-1]]), x_min=lo, x_max=hi, N=N)
            ctx.check(y2.shape == (2, 81) and close(y2[1], want[::-1], 1e-9, 1e-9), "matrix", f"N {N}: two dimensions")
        ctx.state((N, lo, hi))
        ctx.step()
    ctx.trace()


def tophat(case, ctx):
    from scipy import special
    from seyfert.numeric import general as nu
    for R in (0.01, 0.2, 1.0, 8.0):
        x = np.concatenate([R * np.linspace(0.5, 1.5, 101), [0.0, 1e-6, 50.0]])
        with ctx.guard("tophat", f"R {R}"):
            y = nu.top_hat_filter(x, R)
            want = 1 - special.betainc(4, 4, np.clip((x / R - 0.9) / 0.2, 0, 1))
            ctx.check(close(y, want, 1e-9, 1e-9), "tophat", f"R {R}: off by {np.abs(y - want).max()}")
        ctx.state(R)
        ctx.step()
    ctx.trace()


def derivative(case, ctx):
    from seyfert.numeric import general as nu
    for deg, x, step in itertools.product(range(5), (-1.5, 0.0, 0.7, np.array([-2.0, 0.1, 3.0])), (1e-3, 0.1, 0.5)):
        with ctx.guard("derivative", f"x**{deg} at {x}, step {step}"):
            got = nu.callable_stencil_derivative(lambda t, scale: scale * t ** deg, x, step, scale=3.0)
            want = 3.0 * deg * np.asarray(x, float) ** max(deg - 1, 0)
            ctx.check(close(got, want, 1e-9, 1e-9), "derivative", f"x**{deg} at {x}, step {step}: {got} instead of {want}")
        ctx.state((deg, str(x), step))
        ctx.step()
    ctx.trace()


def differences(case, ctx):
    import pandas as pd
    from seyfert.numeric import general as nu
    for scale in (2.0 ** -70, 2.0 ** 70):
        for a, b in itertools.product((0.0, 1.0, -1.5, 3.0), repeat=2):
            x, y = scale * np.array([a, 1.0]), scale * np.array([b, 2.0])
            exp = [0.0 if a + b == 0 else 200 * abs(a - b) / abs(a + b), 200 / 3]
            ctx.step()
            with ctx.guard("pad", f"{x} {y}"):
                ctx.check(close(nu.pad(x, y), exp), "pad", f"{x} and {y}: {nu.pad(x, y)} instead of {exp}")
                for ref, f in (("mean", np.mean), ("max", np.max)):
                    w = np.abs(x + y)
                    ctx.check(close(nu.odm_weighted_pad(x, y, ref), np.array(exp) * w / f(w)), "weighted", f"{ref} of {x} and {y}")
    vals = [0.0, 1.0, -1.0, 2.0, -3.5]
    want = {(a, b): 0.0 if a + b == 0 else 200 * abs(a - b) / abs(a + b) for a in vals for b in vals}
    for combo in itertools.product(itertools.product(vals, vals), repeat=2):
        x = np.array([c[0] for c in combo])
        y = np.array([c[1] for c in combo])
        exp = [want[c] for c in combo]
        ctx.step()
        with ctx.guard("pad", f"{x} {y}"):
            got = nu.pad(x, y)
            ctx.check(close(got, exp), "pad", f"{x} and {y}: {got} instead of {exp}")
            if all(a + b != 0 or a == b for a, b in combo):
                f = nu.pad(pd.DataFrame([x], columns=["a", "b"]), pd.DataFrame([y[::-1]], columns=["b", "a"]))
                ctx.check(close(f[["a", "b"]].values[0], exp), "pad_table", f"tables of {x} and {y}: {f.values} instead of {exp}")
            for c, e in zip(combo, exp):
                if c[0] + c[1] != 0:
                    ctx.check(close(nu.pad(*c), e), "pad_scalar", f"{c}")
            if all(b != 0 for _, b in combo):
                d = nu.percentage_difference(x, y)
                ctx.check(close(d, [100 * (a - b) / b for a, b in combo]), "percentage", f"{x} {y}: {d}")
            norm = np.abs(x + y) / 2
            for ref, f in (("mean", norm.mean()), ("max", norm.max())):
                if f > 0:
                    d = nu.odm_weighted_pad(x, y, ref=ref)
                    ctx.check(close(d, np.array(exp) * norm / f, 1e-12), "weighted", f"{ref} {x} {y}: {d}")
        ctx.state(combo)
    a = pd.DataFrame([[1.0, 2.0]], columns=["a", "b"])
    for other in (pd.DataFrame([[1.0, 2.0]], columns=["a", "c"]), pd.DataFrame([[1.0, 2.0]], columns=["a", "b"], index=[5])):
        ctx.raises(Exception, lambda: nu.pad(a, other), "labels", "tables with different labels compared")
    ctx.trace()


def units(case, ctx):
    from seyfert.utils import converters as cv
    deg = np.pi / 180
    table = [("InchesToPts", 72.0), ("PtsToInches", 1 / 72.0), ("InchesToCm", 2.54), ("CmToInches", 1 / 2.54),
             ("SteradToDeg2", 1 / deg ** 2), ("Deg2ToSterad", deg ** 2), ("SteradToArcmin2", (60 / deg) ** 2),
             ("Arcmin2ToSterad", (deg / 60) ** 2), ("invDeg2ToInvSterad", 1 / deg ** 2), ("invSteradToinvDeg2", deg ** 2),
             ("invArcmin2ToInvSterad", (60 / deg) ** 2), ("invSteradToinvArcmin2", (deg / 60) ** 2)]
    for (name, f), v in itertools.product(table, (0.0, 1.0, -2.0, 3e8, np.array([0.5, 41253.0]))):
        with ctx.guard("units", name):
            ctx.check(close(getattr(cv, name)(v), f * np.asarray(v), 1e-12), "units", f"{name}({v})")
        ctx.state((name, str(v)))
        ctx.step()
    ctx.trace()
