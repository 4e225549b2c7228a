"""C15: unfolding; specs XForm (UnfoldedY), XFormTrace."""
import random
import warnings

from checks import c14
from vlib import flow, gen, num

M = num.P


def special_names(rng, d):
    """Names a user may well choose."""
    pool = ["input_t", "output_t", "input_t0", "output_t1", "output_", "x", "t0", "in0",
            "sfg0", "add0", "", "y_0", "y_1", "input_temp"]
    for n in d["nodes"]:
        if rng.random() < 0.3:
            n["name"] = rng.choice(pool)


def delay_chain(rng, d):
    """Put some extra delays in series after existing delays."""
    for i, n in enumerate(list(d["nodes"])):
        if n["k"] == "t" and rng.random() < 0.3:
            d["nodes"].append({"k": "t", "v": rng.choice([0, 1, 2]), "src": [(i, 0)],
                               "name": f"n{len(d['nodes'])}"})
            j = len(d["nodes"]) - 1
            for q, x in enumerate(d["nodes"]):
                if q != j and rng.random() < 0.7:
                    x["src"] = [(j, 0) if tuple(s) == (i, 0) else s for s in x["src"]]
            if not any(tuple(s) == (j, 0) for x in d["nodes"] for s in x["src"]):
                d["nodes"].pop()


def case(arg):
    rng = random.Random(arg["seed"])
    kw = c14.kinds_kw(arg["mode"])
    d = gen.random_graph(rng, n_ops=rng.randint(1, 6), n_in=rng.randint(1, 2),
                         n_del=rng.randint(0, 4), n_const=rng.choice([0, 0, 1]),
                         n_out=rng.randint(1, 3), **kw)
    c14.names(d)
    delay_chain(rng, d)
    if not gen.alive(d):
        return None
    if rng.random() < 0.3:
        special_names(rng, d)
    gen.default_latencies(rng, d, per_node=True)
    f = rng.randint(1, 4)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sfg = gen.build(d)
        g0 = flow.of_sfg(sfg, M)
        steps = []
        for k in range(arg["len"]):
            f = rng.randint(1, 4) if k == 0 else rng.randint(1, 2)
            n_src = len(sfg.input_operations)
            before = c14.snapshot(sfg)
            ops0 = lat(sfg)
            res = sfg.unfold(f)
            after = c14.snapshot(sfg)
            e = {"op": "unfold", "i": 0, "ports": [], "nd": c14.node_rec({"k": "neg", "v": 0}),
                 "n": f, "targets": [], "to": "", "exact": True, "extra": 0, "keep": ["lat"]}
            e["before"], e["after"] = ("", "") if before == after else (before, after)
            # every copy keeps the latencies and execution time of its operation
            e["attr0"] = {"lat": sorted(ops0 * f)}
            e["attr"] = {"lat": sorted(lat(res))}
            e["h"] = flow.of_sfg(res, M)
            xs = flow.random_x(rng, f * n_src, 5, M, arg["mode"] == "cplx")
            e["X"] = [[num.field(v) for v in r] for r in xs]
            e["y"] = []
            hops = []
            flow.of_sfg(res, M, hops)
            raws = [dict(zip("vw", flow.params(o)[:2])) for o in hops]
            ln = min(3, flow.safe_length(e["h"], raws, 3))
            if ln and len(e["h"]["ins"]) == f * n_src:
                e["y"] = c14.real_outputs(res, xs[:ln])
            steps.append(e)
            sfg = res
            if len(e["h"]["nodes"]) > 20:
                break
    return {"g": g0, "steps": steps, "_desc": d, "_seed": arg["seed"]}


def lat(sfg):
    from b_asic import Delay

    return [repr((str(o.type_name()), sorted(o.latency_offsets.items()), o.execution_time))
            for o in sfg.operations if not isinstance(o, Delay)]


def bad_factor(arg):
    """A factor of zero (or less) is rejected."""
    d = {"nodes": [{"k": "in", "v": 0, "src": []}, {"k": "t", "v": 0, "src": [(0, 0)]},
                   {"k": "add", "v": 0, "src": [(0, 0), (1, 0)]},
                   {"k": "out", "v": 0, "src": [(2, 0)]}]}
    sfg = gen.build(d)
    try:
        sfg.unfold(0)
    except ValueError:
        return None
    raise AssertionError("unfolding by 0 was accepted")


def check(ctx):
    ctx.assumptions += [
        "functions are compared in Z_40961 (dyadic complex parameters) on random input "
        "sequences of 5 blocks from the initial state; factors 1..4",
    ]
    n = ctx.scale(1600, 16000)
    recs = ctx.drive(case, [{"seed": f"{ctx.seed}/{i}", "len": 1 if i % 4 else 2,
                             "mode": "cplx" if i % 3 == 0 else "real"} for i in range(n)])
    ctx.drive(bad_factor, [0])
    for t in recs:
        for s in t["steps"]:
            ctx.count(f"factor_{s['n']}")
            ctx.count("delays", sum(n["k"] == "t" for n in s["h"]["nodes"]))
    ctx.validate("XFormTrace", recs, name="unfoldings", weight=lambda t: sum(
        len(s["h"]["nodes"]) for s in t["steps"]))
