"""The vectorizations of the covariance algebra and the matrices that connect them."""
import itertools

import numpy as np

PROPERTY = "P34"
LEVEL = "model_checking"
RULE = ("all shapes up to the bound; every function of a matrix is a linear map of it, which is decided by its values on all the matrices with a single nonzero entry (and, for symmetric matrices, on the symmetric ones of those) plus one "
        "matrix of distinct entries, each in four memory layouts and two types; every connecting matrix is compared entry by entry; a state is the shape with the matrix")
BOUNDS = {"quick": "all shapes p x q with p, q up to 6, square ones up to 9", "thorough": "all shapes with p, q up to 9, square ones up to 22"}
WORKERS = 4
CHUNK = 2


def init():
    global lt, fu
    from seyfert.fisher import fisher_utils as fu
    from seyfert.fisher import linalg_tools as lt


def cases(tier):
    pq, n = (6, 9) if tier == "quick" else (9, 22)
    for shape in itertools.product(range(1, pq + 1), repeat=2):
        yield {"kind": "rectangular", "shape": list(shape)}
    for k in range(1, n + 1):
        yield {"kind": "square", "n": k}
        yield {"kind": "matrices", "n": k}
        yield {"kind": "indices", "n": k}
    yield {"kind": "lengths", "upto": n * n}


def layouts(a):
    """the same matrix in different places of the memory"""
    p, q = a.shape
    big = np.full((2 * p + 1, 3 * q + 2), -7, dtype=a.dtype)
    big[1::2, 1:3 * q:3] = a
    yield "by rows", np.array(a, order="C")
    yield "by columns", np.array(a, order="F")
    yield "spread", big[1::2, 1:3 * q:3]
    yield "backwards", np.array(a[::-1, ::-1])[::-1, ::-1]


def basis(p, q):
    for i in range(p):
        for j in range(q):
            e = np.zeros((p, q))
            e[i, j] = 1
            yield (i, j), e


def generic(p, q):
    return (1 + np.arange(p * q).reshape(p, q)) * 1.1 + 0.013 * np.arange(q)[None, :] ** 2


def stacked(a):
    """column by column"""
    return [a[i][j] for j in range(len(a[0])) for i in range(len(a))]


def upper(a):
    return [a[i][j] for j in range(len(a)) for i in range(j + 1)]


def apply(ctx, f, a, want, label):
    for dtype in (float, int):
        if dtype is int and not np.array_equal(a, a.astype(int)):
            continue
        for name, x in layouts(a.astype(dtype)):
            before = x.copy()
            with ctx.guard(f"{label}, {name}"):
                got = np.asarray(f(x))
                ctx.step()
                ctx.check(got.shape == (len(want),) and list(got) == want, f"{label}, {name}: {got.tolist()} instead of {want}")
                ctx.check(np.array_equal(x, before), f"{label}, {name}: the matrix was altered")


def run_case(case, ctx):
    globals()["do_" + case["kind"]](case, ctx)


def do_rectangular(case, ctx):
    p, q = case["shape"]
    for key, a in [*basis(p, q), ("generic", generic(p, q))]:
        ctx.state((p, q, key))
        apply(ctx, lt.vec, a, stacked(a.tolist()), f"vec of {key} in {p}x{q}")
    with ctx.guard(f"commutation_matrix({p}, {q})"):
        k = np.asarray(lt.commutation_matrix(p, q))
        want = np.zeros((p * q, p * q))
        for i in range(p):
            for j in range(q):
                want[i * q + j, j * p + i] = 1
        ctx.check(np.array_equal(k, want), f"commutation_matrix({p}, {q}) is {k.tolist()}")
        a = generic(p, q)
        ctx.check(np.array_equal(k @ np.array(stacked(a.tolist())), np.array(stacked(a.T.tolist()))), f"commutation_matrix({p}, {q}) does not transpose")
    with ctx.guard(f"get_enumeration_map({p}, {q})"):
        m = lt.get_enumeration_map((p, q), False)
        ctx.check({tuple(map(int, k)): int(v) for k, v in m.items()} == {(i, j): j * p + i for i in range(p) for j in range(q)}, f"enumeration of {p}x{q}: {m}")
        ctx.check([m[k] for k in itertools.product(range(p), range(q))] == [j * p + i for i in range(p) for j in range(q)], f"enumeration of {p}x{q} looked up: {m}")
    if p != q:
        ctx.raises(Exception, lambda: lt.get_enumeration_map((p, q), True), f"symmetric enumeration of {p}x{q}")
        ctx.raises(Exception, lambda: lt.vecp(generic(p, q)), f"vecp of {p}x{q}")
    ells = np.stack([generic(p, q) * s for s in (1., -2., 7.)])
    for name, f, ref in (("vecClArray", fu.vecClArray, stacked), ("vecpClArray", fu.vecpClArray, upper)):
        if ref is upper and p != q:
            ctx.raises(Exception, lambda: f(ells), f"{name} of {p}x{q}")
            continue
        with ctx.guard(f"{name} of {p}x{q}"):
            for n_ell in (1, 2, 3):
                got = np.asarray(f(ells[:n_ell]))
                ctx.check(got.tolist() == [ref(x.tolist()) for x in ells[:n_ell]], f"{name} of {n_ell} times {p}x{q}: {got.tolist()}")


def do_square(case, ctx):
    n = case["n"]
    for key, a in [*basis(n, n), ("generic", generic(n, n))]:
        ctx.state((n, key))
        apply(ctx, lt.vecp, a, upper(a.tolist()), f"vecp of {key} in {n}x{n}")
        with ctx.guard(f"unvec of {key} in {n}x{n}"):
            v = np.array(stacked(a.tolist()))
            ctx.check(np.array_equal(lt.unvec(v.copy()), a), f"unvec of {key} in {n}x{n}")
            ctx.check(np.array_equal(lt.unvec(lt.vec(a)), a), f"unvec(vec) of {key} in {n}x{n}")
        s = np.triu(a) + np.triu(a, 1).T
        with ctx.guard(f"unvecp of {key} in {n}x{n}"):
            v = np.array(upper(s.tolist()))
            w = v.copy()
            ctx.check(np.array_equal(lt.unvecp(w), s), f"unvecp of {key} in {n}x{n}: {lt.unvecp(w)}")
            ctx.check(np.array_equal(w, v), f"unvecp of {key} in {n}x{n} altered its argument")
            ctx.check(np.array_equal(lt.unvecp(v.astype(int)), np.trunc(s)), f"unvecp of integers of {key} in {n}x{n}")
            ctx.check(np.array_equal(lt.unvecp(lt.vecp(s)), s), f"unvecp(vecp) of {key} in {n}x{n}")
    with ctx.guard(f"symmetric enumeration of {n}x{n}"):
        m = lt.get_enumeration_map((n, n), True)
        ctx.check({tuple(map(int, k)): int(v) for k, v in m.items()} == {(i, j): j * (j + 1) // 2 + i for j in range(n) for i in range(j + 1)}, f"symmetric enumeration of {n}x{n}: {m}")


def do_matrices(case, ctx):
    n = case["n"]
    m = n * (n + 1) // 2
    ctx.state(("matrices", n))
    dup, eli = np.zeros((n * n, m)), np.zeros((m, n * n))
    for j in range(n):
        for i in range(j + 1):
            dup[j * n + i, j * (j + 1) // 2 + i] = dup[i * n + j, j * (j + 1) // 2 + i] = 1
            eli[j * (j + 1) // 2 + i, j * n + i] = 1
    with ctx.guard(f"matrices of {n}"):
        ctx.check(np.array_equal(lt.duplication_matrix(n), dup), f"duplication_matrix({n})")
        ctx.check(np.array_equal(lt.elimination_matrix(n), eli), f"elimination_matrix({n})")
        t = np.asarray(lt.transition_matrix(n))
        ctx.check(t.shape == (n * n, m) and np.allclose(t, dup / dup.sum(axis=0), rtol=0, atol=1e-10), f"transition_matrix({n})")
        ctx.step(3)


def do_indices(case, ctx):
    n = case["n"]
    ctx.state(("indices", n))
    for name, keep in (("triu_idxs_by_col", lambda i, j: i <= j), ("tril_idxs_by_col", lambda i, j: i >= j), ("diag_idxs", lambda i, j: i == j)):
        cells = [(i, j) for j in range(n) for i in range(n) if keep(i, j)]
        for args, want in (((), cells), (("F",), cells), (("C",), sorted(cells))):
            with ctx.guard(f"{name}({n}, {args})"):
                i, j = getattr(lt, name)(n, *args)
                ctx.check(list(zip(map(int, i), map(int, j))) == want, f"{name}({n}, {args}): {list(zip(i, j))}")


def do_lengths(case, ctx):
    """a vector of a length that no matrix has is refused"""
    top = case["upto"]
    squares, triangles = {k * k for k in range(top + 1)}, {k * (k + 1) // 2 for k in range(top + 1)}
    for k in range(2, top + 1):
        ctx.state(("length", k))
        if k not in squares:
            ctx.raises(Exception, lambda: lt.unvec(np.arange(float(k))), f"unvec of {k} numbers")
        if k not in triangles:
            ctx.raises(Exception, lambda: lt.unvecp(np.arange(float(k))), f"unvecp of {k} numbers")
