"""C09: forward-backward register allocation; specs Share, RegTrace."""
import random

from checks import c06
from vlib import procs as pr


def table(procs, T):
    from b_asic.resources import ProcessCollection, _ForwardBackwardTable

    pc = ProcessCollection(procs, T, True)
    tab = _ForwardBackwardTable(pc)
    idx = {id(p): i + 1 for i, p in enumerate(procs)}
    rows = []
    for e in tab:
        rows.append({
            "in": [idx[id(p)] for p in e.inputs],
            "out": [idx[id(p)] for p in e.outputs],
            "from": -2 if e.outputs_from is None else int(e.outputs_from),
            "regs": [0 if p is None else idx[id(p)] for p in e.regs],
            "back": [{"f": int(f), "r": int(r)} for f, r in e.back_edge_to.items()],
        })
    return rows, len(tab[0].regs)


def fits(P, T):
    """One write and one read per cycle."""
    w = [p["s"] % T for p in P]
    r = [(p["s"] + x) % T for p in P for x in p["rd"]]
    return len(set(w)) == len(w) and len(set(r)) == len(r)


def make(P, T, kind, must):
    if not fits(P, T) or not P:
        return None
    try:
        rows, n = table(pr.processes(P, kind), T)
    except ValueError:
        if must:
            raise
        long = any(p["ex"] > T for p in P)
        return {"rejected": True, "fits": fits(P, T) and not long, "T": T, "P": P}
    H = 3 * T + 2 * max(p["s"] + p["ex"] for p in P)
    return {"T": T, "P": P, "rows": rows, "regs": n, "H": H}


def case(arg):
    rng = random.Random(arg["seed"])
    T = rng.randint(1, 12)
    for _ in range(50):
        P = pr.random_procs(rng, T, rng.randint(1, T), multi=rng.random() < 0.4,
                            zero=rng.random() < 0.5, long=rng.random() < 0.1, one_write=True)
        if fits(P, T):
            break
    return make(P, T, rng.choice(["plain", "var"]), False)


def perm(arg):
    """Interleavers: one write and one read in every cycle."""
    rng = random.Random(arg["seed"])
    T = rng.randint(2, 12)
    out = list(range(T))
    rng.shuffle(out)
    late = max(t - i for t, i in enumerate(out)) if rng.random() < 0.5 else 0
    P = []
    for t, i in enumerate(out):
        L = i - t + late if late else (i - t) % T
        P.append({"s": t, "ex": L, "rd": [L]})
    return make(P, T, "plain", arg["must"] and max(p["ex"] for p in P) <= T)


def replay(arg):
    return [make([{"s": p["s"], "ex": p["ex"], "rd": sorted(p["rd"])} for p in c["P"]],
                 c["T"], "plain", False) or {"rejected": True} for c in arg["cs"]]


def check(ctx):
    ctx.assumptions += [
        "at most one variable is written and at most one value is read in a cycle",
        "a collection may be refused",
    ]
    cs = c06.collections(ctx, multi=True)
    recs = ctx.drive(replay, [{"cs": cs[i:i + 40]} for i in range(0, len(cs), 40)])
    n = ctx.scale(2500, 30000)
    recs += ctx.drive(case, [{"seed": f"{ctx.seed}/{i}"} for i in range(n)])
    recs += ctx.drive(perm, [{"seed": f"{ctx.seed}/p{i}", "must": False} for i in range(n // 2)])
    ctx.count("rejected", sum("rejected" in t for t in recs))
    # The allocation is a heuristic and may refuse, but rarely when the accesses
    # never meet and every life time is at most a period.
    fit = [t for t in recs if "T" in t and (t.get("fits") or "rejected" not in t)]
    refused = [t for t in fit if "rejected" in t]
    ctx.count("refused_fitting", len(refused))
    if len(refused) * 20 > len(fit):
        ctx.violation("collections refused", {"refused": min(refused, key=lambda t: len(t["P"])),
                                              "count": len(refused), "of": len(fit)})
    recs = [t for t in recs if "rejected" not in t]
    for t in recs:
        ctx.count("registers", t["regs"])
        ctx.count("back_edges", sum(len(r["back"]) for r in t["rows"]))
    ctx.validate("RegTrace", recs, name="tables", weight=lambda t: t["H"] * t["regs"])
