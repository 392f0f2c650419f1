"""Job directory names identify exactly one (parameter, step) / parameter / parameter pair."""
import itertools

PROPERTY = "P03"
LEVEL = "model_checking"
RULE = ("every parameter name of a shipped and synthetic list times every step of the bounded range, encoded and "
        "decoded, also as the tail of a longer path; a state is one (parameter, step)")
BOUNDS = {"quick": "steps -120..120", "thorough": "steps -1500..1500"}
WORKERS = 4


def names():
    base = ["h", "Omm", "OmDE", "Omb", "w0", "wa", "ns", "sigma8", "gamma", "mnu", "aIA", "etaIA", "betaIA", "central",
            "x", "X9", "9", "step", "m", "p", "stepm1", "dvar", "m1", "p2"]
    return base + [f"bgph{i}" for i in range(1, 13)] + [f"bgsp{i}" for i in range(1, 41)] + [f"sp{i}" for i in (1, 10)]


def cases(tier):
    top = 120 if tier == "quick" else 1500
    for n in names():
        yield {"kind": "cosmo", "name": n, "top": top}
    yield {"kind": "pairs"}
    yield {"kind": "distinct", "top": top}


def run_case(case, ctx):
    import seyfert.utils.filesystem_utils as fsu
    if case["kind"] == "cosmo":
        n = case["name"]
        for s in range(-case["top"], case["top"] + 1):
            d = fsu.get_cosmology_jobdir_name(n, s)
            ctx.check("/" not in d and d == d.strip() and d not in ("", ".", ".."), "illegal", d)
            got = fsu.get_dvar_step_from_cosmology_jobdir_name(d)
            key = "roundtrip"
            ctx.check(tuple(got) == (n, s), key, lambda: f"{(n, s)} -> {d} -> {tuple(got)}")
            ctx.state((n, s))
            ctx.step()
            ctx.trace()
        ctx.note({"name": n, "step": s, "dir": d})
    elif case["kind"] == "pairs":
        ns = names()
        seen = {}
        for a, b in itertools.product(ns, repeat=2):
            d = fsu.get_fisher_jobdir_name_from_dvar1_dvar2(a, b)
            ctx.check(seen.setdefault(d, (a, b)) == (a, b), "pair-collision", d)
            ctx.check(tuple(fsu.get_dvar1_dvar2_from_fisher_jobdir_name(d)) == (a, b), "pair-roundtrip", d)
            ctx.step()
            ctx.state((a, b))
        for a in ns:
            d = fsu.get_derivative_jobdir_name_from_dvar(a)
            ctx.check(fsu.get_dvar_from_derivative_jobdir_name(d) == a, "der-roundtrip", a)
        for a in ns[:16]:
            for junk in (f"-{a}__w0", f"/{a}__w0", f"__{a}", f"{a}__", f"{a}_w0", f"{a}-w0", f" {a}__h", f"{a} __h",
                         f"{a}__-h"):
                ctx.raises(Exception, lambda: fsu.get_dvar1_dvar2_from_fisher_jobdir_name(junk), "junk", junk)
            for junk in (f"{a}_step_0", f"dvar_{a}_step_", f"dvar_{a}_step_x_1", f"dvar_{a}_step_m_", f"dvar_{a}_1",
                         f"dvar_{a}_step", f"dvar__step_p_1", f"dvar_{a}step_0", f"dvar_{a}_step0", f"var_{a}_step_0",
                         f"dvar_{a}_step_m1", f"dvar{a}_step_0"):
                ctx.raises(Exception, lambda: fsu.get_dvar_step_from_cosmology_jobdir_name(junk), "junk", junk)
                ctx.step()
        for junk in ("", "foo", "dvar", "step_0", "dvar_x", "logs"):
            ctx.raises(Exception, lambda: fsu.get_dvar_step_from_cosmology_jobdir_name(junk), "junk", junk)
            if "__" not in junk:
                ctx.raises(Exception, lambda: fsu.get_dvar1_dvar2_from_fisher_jobdir_name(junk), "junk", junk)
    else:
        seen = {}
        for n in names():
            for s in range(-case["top"], case["top"] + 1):
                d = fsu.get_cosmology_jobdir_name(n, s)
                if d in seen and seen[d] != (n, s):
                    ctx.fail("collision", f"{d} stands for {seen[d]} and {(n, s)}")
                    return
                seen[d] = (n, s)
