"""Probe-pair names and data vectors: every chain of translations and reversals against a reference pair."""
import copy
import itertools

PROPERTY = "P04"
LEVEL = "model_checking"
RULE = ("every probe pair in every notation under every sequence of translate/reverse/copy/serialise operations up to "
        "the depth; every data vector of distinct (and repeated) pairs up to the length bound, in every notation, "
        "through every serialisation; every ordered pair of vectors up to length 2 for equality")
BOUNDS = {"quick": "chains of 5 operations; vectors up to length 3 of the 16 ordered pairs",
          "thorough": "chains of 6 operations; vectors up to length 4 of the 16 ordered pairs"}

LONG = ["PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing", "Void"]
SHORT = ["ph", "sp", "wl", "vd"]
ALIAS = ["GCph", "GCsp", "WL", "V"]
KINDS = ["long", "short", "alias"]
TAB = {"long": LONG, "short": SHORT, "alias": ALIAS}


def raw(i, j, kind):
    a, b = TAB[kind][i], TAB[kind][j]
    return {"long": f"{a}_{b}", "short": f"{a}{b}", "alias": (a, b)}[kind]


OPS = ["long", "short", "alias", "rev", "copy", "deep", "rewrap", "str", "parts"]


def cases(tier):
    depth = 5 if tier == "quick" else 6
    for i, j in itertools.product(range(4), repeat=2):
        yield {"kind": "chain", "i": i, "j": j, "depth": depth}
    yield {"kind": "probes"}
    pairs = list(itertools.product(range(4), repeat=2))
    for p in pairs:
        yield {"kind": "vec", "first": p, "len": 3 if tier == "quick" else 4}
    for n in range(8):
        yield {"kind": "veq", "part": n}
    yield {"kind": "invalid"}


def step(ctx, key, m, op):
    from seyfert.utils.shortcuts import ClKey
    i, j, kind = m
    if op in KINDS:
        fn = {"long": key.toLongKey, "short": key.toShortKey, "alias": key.toAliasKey}[op]
        out = fn()
        alt = key.transformTo(op)
        ctx.check(alt == out and alt.key == out.key, "transform", f"{m} {op}")
        return out, (i, j, op)
    if op == "rev":
        return key.getReverseKey(), (j, i, kind)
    if op == "copy":
        return key.copy(), m
    if op == "deep":
        return copy.deepcopy(key), m
    if op == "rewrap":
        return ClKey(key), m
    if op == "str":
        return ClKey.fromFisherStringRepr(key.toFisherStringRepr()), (i, j, "alias")
    if op == "parts":
        return ClKey.fromParts(*key.toParts(), kind=kind), m


def observe(ctx, key, m, hist):
    i, j, kind = m
    ctx.eq(key.key, raw(i, j, kind), "key", f"{hist}")
    ctx.eq(key.kind, kind, "kind", f"{hist}")
    ctx.eq(tuple(key.toParts()), (TAB[kind][i], TAB[kind][j]), "parts", f"{hist}")
    ctx.eq(key.is_auto_correlation, i == j, "auto", f"{hist}")
    ctx.eq((key.is_long, key.is_short, key.is_tuple), tuple(kind == k for k in KINDS), "flags", f"{hist}")
    ctx.eq(key.toLongRawKey(), raw(i, j, "long"), "long", f"{hist}")
    ctx.eq(key.toShortRawKey(), raw(i, j, "short"), "short", f"{hist}")
    ctx.eq(key.toTupleRawKey(), raw(i, j, "alias"), "alias", f"{hist}")


def run_case(case, ctx):
    from seyfert.utils.shortcuts import ClKey, ProbeName
    if case["kind"] == "chain":
        i, j = case["i"], case["j"]
        allkeys = {(a, b, k): ClKey(raw(a, b, k)) for a in range(4) for b in range(4) for k in KINDS}
        for kind in KINDS:
            # depth-first with memo on (object state, model state): identical model states are explored once per depth
            frontier = [(ClKey(raw(i, j, kind)), (i, j, kind), ())]
            for depth in range(case["depth"]):
                nxt = []
                for key, m, hist in frontier:
                    for op in OPS:
                        h = hist + (op,)
                        k2, m2 = step(ctx, key, m, op)
                        observe(ctx, k2, m2, h)
                        observe(ctx, key, m, h)  # the source is not changed by the operation
                        ctx.step()
                        ctx.state((m2, op))
                        ctx.trace()
                        nxt.append((k2, m2, h))
                        if len(ctx.failures) > 20:
                            return
                # keep, per (model state, last two operations), one representative object for the next level
                rep = {}
                for k2, m2, h in nxt:
                    rep.setdefault((m2, h[-2:]), (k2, m2, h))
                frontier = list(rep.values())
        for (a, b, k), other in allkeys.items():
            for kind in KINDS:
                me = ClKey(raw(i, j, kind))
                same = (a, b) == (i, j)
                ctx.eq(me == other, same, "equality", f"{me} vs {other}")
                ctx.eq(me.equivalentTo(other), same, "equivalence", f"{me} vs {other}")
                if same:
                    ctx.eq(hash(me), hash(other), "hash", f"{me} vs {other}")
                    ctx.check({me: 1}.get(other) == 1, "dict-lookup", f"{me} vs {other}")
                else:
                    ctx.check({me: 1}.get(other) is None, "dict-lookup", f"{me} vs {other}")
                    ctx.check(hash(me) != hash(other), "hash", f"{me} hashes like {other}")
                ctx.step()
        ctx.note({"pair": raw(i, j, "short"), "ops": list(h)})
    elif case["kind"] == "probes":
        for i in range(4):
            for k1 in KINDS:
                for k2 in KINDS:
                    for k3 in KINDS:
                        p = ProbeName(TAB[k1][i])
                        q = p.transformTo(k2).transformTo(k3)
                        ctx.eq((q.name, q.kind), (TAB[k3][i], k3), "probe")
                        ctx.eq((p.name, p.kind), (TAB[k1][i], k1), "probe-mutated")
                        for jj in range(4):
                            o = ProbeName(TAB[k3][jj])
                            ctx.eq(q == o, i == jj, "probe-eq", f"{q} {o}")
                            ctx.eq(p == o, i == jj, "probe-eq", f"{p} {o}")
                        ctx.step()
                        ctx.state((i, k1, k2, k3))
                ctx.eq(ProbeName(TAB[k1][i]).toShort().name, SHORT[i], "probe-short")
                ctx.eq(ProbeName(TAB[k1][i]).toLong().name, LONG[i], "probe-long")
                ctx.eq(ProbeName(TAB[k1][i]).toAlias().name, ALIAS[i], "probe-alias")
        import seyfert.utils.general_utils as gu
        for i, j in itertools.product(range(4), repeat=2):
            ctx.eq(gu.get_probes_combination_key(LONG[i], LONG[j]), raw(i, j, "long"), "comb-key")
            ctx.eq(list(gu.get_probes_from_comb_key(raw(i, j, "long"))), [LONG[i], LONG[j]], "comb-split")
            ctx.eq(gu.reverse_probes_comb_key(raw(i, j, "long")), raw(j, i, "long"), "comb-reverse")
            ctx.eq(gu.probe_alias_to_fullname(ALIAS[i]), LONG[i], "alias-to-full")
            ctx.eq(gu.probe_fullname_to_alias(LONG[i]), ALIAS[i], "full-to-alias")
    elif case["kind"] == "vec":
        pairs = list(itertools.product(range(4), repeat=2))
        first = tuple(case["first"])
        for n in range(1, case["len"] + 1):
            for tail in itertools.product(pairs, repeat=n - 1):
                vector(ctx, (first,) + tail)
                if len(ctx.failures) > 20:
                    return
        ctx.note({"vector": [raw(a, b, "short") for a, b in (first,) + tail]})
    elif case["kind"] == "veq":
        from seyfert.fisher.datavector import ClDataVector
        pairs = list(itertools.product(range(4), repeat=2))
        vs = [()] + [(p,) for p in pairs] + list(itertools.product(pairs, repeat=2))
        objs = [{k: ClDataVector([raw(a, b, k) for a, b in v]) for k in KINDS} for v in vs]
        for x, v in enumerate(vs):
            if x % 8 != case["part"]:
                continue
            for y, w in enumerate(vs):
                k1, k2 = KINDS[(x + y) % 3], KINDS[(x * 2 + y + 1) % 3]
                got = bool(objs[x][k1] == objs[y][k2])
                ctx.eq(got, v == w, "vector-equality", f"{objs[x][k1]} vs {objs[y][k2]}:")
                ctx.step()
                ctx.state((v, w))
    else:
        bad = ["", "p", "ph", "xyxy", "Foo_Bar", "phxx", "Lensing", "Lensing_", "_Lensing", "PhotometricGalaxyLensing",
               ("GCph",), ("GCph", "WL", "V"), ("foo", "WL"), ("WL", "foo"), (), 3, None, ["WL", "WL"],
               ("xWL", "WL"), ("WL", "xWL"), ("WL", "wGCph"), (" V", "WL"), ("V", "GC"), ("ph", "wl"), ("WL", "Lensing"),
               "xphph", " wlwl", "phPH", "PhWl", "Xlensing_Lensing", "XLensing_Lensing", "Lensing__Lensing", "Lensing_wl",
               "lensing_Lensing"]
        for b in bad:
            ctx.raises(Exception, lambda: ClKey(b), "invalid-accepted", repr(b))
        for b in ["", "wl", "foo", "XC(WL)", "XC(foo,WL)", "XC(WL,foo)", "GC", "xWL", "XXC(WL,V)", "XC(WL V)", "XC(WL,xV)", "XC(xWL,V)"]:
            ctx.raises(Exception, lambda: ClKey.fromFisherStringRepr(b), "invalid-accepted", repr(b))
        for b in ["", "foo", "gcph", "Wl", "PH"]:
            ctx.raises(Exception, lambda: ProbeName(b), "invalid-accepted", repr(b))


def vector(ctx, v):
    from seyfert.fisher.datavector import ClDataVector
    name = "[" + "+".join(ALIAS[a] if a == b else f"XC({ALIAS[a]},{ALIAS[b]})" for a, b in v) + "]"
    want = {k: [raw(a, b, k) for a, b in v] for k in KINDS}
    for k in KINDS:
        dv = ClDataVector(want[k])

        def same(o, kind, what):
            ctx.eq([e.key for e in o], want[kind], what, f"{v} from {k}")
            ctx.eq(o.name, name, "name", f"{v} via {what}")
            ctx.eq(len(o), len(v), "length", what)

        same(dv, k, "construct")
        same(ClDataVector.fromName(dv.name), "alias", "from-name")
        same(ClDataVector.fromBriefString(dv.toBriefString()), "alias", "from-brief")
        same(ClDataVector.fromString(dv.toString()), "alias", "from-string")
        same(ClDataVector(dv), k, "rewrap")
        same(dv.toShortKeysVector(), "short", "to-short")
        same(dv.toTupleKeysVector(), "alias", "to-tuple")
        ctx.eq(dv.toRawTuples(), want["alias"], "raw-tuples")
        ctx.eq(dv.getRawEntries(), want[k], "raw-entries")
        ctx.eq(set(dv.involved_probes), {ALIAS[a] for a, b in v if a == b}, "involved", f"{v}")
        ctx.eq(dv.is_single_autocorrelation, len(v) == 1 and v[0][0] == v[0][1], "single")
        ctx.check(ClDataVector.fromBriefString(dv.toBriefString()) == dv, "brief-equality", f"{v}")
        for k2 in KINDS:
            o = ClDataVector([e.key for e in dv])
            o.transformEntriesTo(k2)
            same(o, k2, "transform-entries")
            w = ClDataVector(dv)
            w.transformEntriesTo(k2)
            same(w, k2, "transform-rewrapped")
            same(dv, k, "rewrap-mutated")
            ctx.check(w == dv, "transformed-equality", f"{v}")
        same(dv, k, "mutated")
        ctx.step(9)
        ctx.trace()
    ctx.state(v)
