"""Pair-keyed containers: asking for a pair in swapped order gives the stored block with bin axes exchanged."""
import itertools
import numpy as np

PROPERTY = "P05"
LEVEL = "model_checking"
RULE = ("every history of store/overwrite/delete/bulk-update requests up to the depth over a 3-probe key set (both "
        "orientations) on each container, every lookup in every notation after every step; a state is the container "
        "content")
BOUNDS = {"quick": "histories of depth 3 on 6 container kinds", "thorough": "histories of depth 4"}

LONG = {"GCph": "PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy", "WL": "Lensing"}
SHORT = {"GCph": "ph", "GCsp": "sp", "WL": "wl"}
NB = {"GCph": 2, "GCsp": 3, "WL": 2}
KEYS = [("WL", "WL"), ("WL", "GCph"), ("GCph", "WL"), ("GCph", "GCsp"), ("GCsp", "GCph"), ("GCsp", "WL")]
CONTAINERS = ["FlexDict", "ClDict", "TupleSmartDict", "ClSmartDict", "SmartKeyDict", "ClSmartKeyDict"]


def block(k, tag):
    """a block whose every entry tells its key, indices and generation"""
    a, b = k
    base = 1000 * (KEYS.index(k) + 1) + 100000 * tag
    return base + np.arange(2 * NB[a] * NB[b], dtype=float).reshape(2, NB[a], NB[b])


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for c in CONTAINERS:
        for first in range(len(ops())):
            yield {"cont": c, "first": first, "depth": depth}


def ops():
    return [("set", i) for i in range(len(KEYS))] + [("del", i) for i in range(len(KEYS))] + \
           [("update", (0, 1)), ("update", (2, 3)), ("update", (4, 5))]


def make(cont, content):
    from seyfert.base_structs import cl_dict
    from seyfert.utils import shortcuts
    if cont in ("FlexDict", "ClDict"):
        return getattr(cl_dict, cont)({skey(cont, k): v for k, v in content.items()})
    if cont in ("TupleSmartDict", "ClSmartDict"):
        return getattr(cl_dict, cont)(dict(content))
    return getattr(shortcuts, cont)({k: v for k, v in content.items()})


def skey(cont, k):
    """the key under which a container stores"""
    from seyfert.utils.shortcuts import ClKey
    if cont in ("FlexDict", "ClDict"):
        return f"{LONG[k[0]]}_{LONG[k[1]]}"
    if cont in ("TupleSmartDict", "ClSmartDict"):
        return k
    return ClKey(k)


def lookups(cont, k):
    from seyfert.utils.shortcuts import ClKey
    lk = f"{LONG[k[0]]}_{LONG[k[1]]}"
    if cont in ("FlexDict", "ClDict"):
        return [lk, k]
    if cont in ("TupleSmartDict", "ClSmartDict"):
        return [k]
    sk = SHORT[k[0]] + SHORT[k[1]]
    return [k, lk, sk, ClKey(k), ClKey(lk), ClKey(sk)]


def run_case(case, ctx):
    cont = case["cont"]
    transposes = cont in ("ClDict", "ClSmartDict", "ClSmartKeyDict")
    allops = ops()
    for tail in itertools.product(range(len(allops)), repeat=case["depth"] - 1):
        seq = (case["first"],) + tail
        for start in ({}, {KEYS[1]: block(KEYS[1], 0), KEYS[4]: block(KEYS[4], 0)}):
            model = dict(start)
            obj = make(cont, start)
            hist = [f"start {sorted(start)}"]
            for tag, o in enumerate(seq, 1):
                op, arg = allops[o]
                if op == "set":
                    v = block(KEYS[arg], tag)
                    obj[skey(cont, KEYS[arg])] = v
                    model[KEYS[arg]] = v.copy()
                elif op == "update":
                    d = {KEYS[i]: block(KEYS[i], tag) for i in arg}
                    obj.update({skey(cont, k): v for k, v in d.items()})
                    model.update({k: v.copy() for k, v in d.items()})
                else:
                    k = KEYS[arg]
                    if k in model:
                        del obj[skey(cont, k)]
                        del model[k]
                    else:
                        ctx.raises(KeyError, lambda: obj.__delitem__(skey(cont, k)), "delete-absent",
                                   f"{cont} {hist} del {k}")
                hist.append((op, arg))
                ctx.step()
                observe(ctx, cont, obj, model, transposes, hist)
                ctx.state((cont, tuple(sorted((k, int(v.flat[0])) for k, v in model.items()))))
                if len(ctx.failures) > 10:
                    return
            ctx.trace()
    ctx.note({"container": cont, "history": [str(h) for h in hist]})


def observe(ctx, cont, obj, model, transposes, hist):
    ctx.eq(len(obj), len(model), "length", f"{cont} {hist}")
    want_keys = [skey(cont, k) for k in model]
    got_keys = list(obj.keys())
    ctx.check(len(got_keys) == len(want_keys) and all(k in got_keys for k in want_keys), "keys",
              lambda: f"{cont} {hist}: keys {got_keys} expected {want_keys}")
    for a, b in KEYS + [("GCsp", "GCsp"), ("WL", "GCsp")]:
        k, r = (a, b), (b, a)
        for key in lookups(cont, k):
            if k in model:
                want = model[k]
            elif r in model:
                want = np.swapaxes(model[r], 1, 2) if transposes else model[r]
            else:
                ctx.raises(KeyError, lambda: obj[key], "absent", f"{cont} {hist} lookup {key!r}")
                ctx.eq(key in obj, False, "contains", f"{cont} {hist} {key!r}")
                continue
            try:
                got = obj[key]
            except Exception as e:
                ctx.fail("lookup", f"{cont} {hist}: lookup {key!r} raised {type(e).__name__}: {e}")
                continue
            ctx.check(np.array_equal(np.asarray(got), want), "value",
                      lambda: f"{cont} {hist}: {key!r} gave {np.asarray(got).tolist()} expected {want.tolist()}")
            ctx.eq(key in obj, True, "contains", f"{cont} {hist} {key!r}")
    # nothing that was stored has been altered by looking it up
    for k, v in model.items():
        ctx.check(np.array_equal(np.asarray(obj[skey(cont, k)]), v), "mutated", lambda: f"{cont} {hist}: {k} altered")
