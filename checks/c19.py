"""C19: loops, paths, iteration period bound, critical path; specs Bound, BoundTrace."""
import json
import random
import warnings

from checks.c17 import universe
from checks.c18 import desc_of, small_graphs
from vlib import gen


def delay_loop(g):
    """Is there a delay that is fed by itself through delays only?"""
    for i, n in enumerate(g, 1):
        j = i
        for _ in g:
            if g[j - 1]["k"] != "t":
                break
            j = g[j - 1]["src"][0]
            if j == i:
                return True
    return False


def record(rng, sfg):
    import b_asic as B

    ops = [c for c in universe(sfg) if hasattr(c, "inputs")]
    num = {id(o): i for i, o in enumerate(ops, 1)}
    ids = {str(o.graph_id): i for i, o in enumerate(ops, 1)}
    g = [{"k": str(o.type_name()), "lat": [int(p.latency_offset or 0) for p in o.outputs],
          "src": [num[id(p.signals[0].source.operation)] for p in o.inputs],
          "sp": [p.signals[0].source.index + 1 for p in o.inputs]} for o in ops]
    steps = []
    work = ["loops", "ipb", "cp", "rlb", "paths", "loops", "ipb", "count"]
    rng.shuffle(work)
    for w in work:
        if w == "loops":
            steps.append({"kind": w, "loops": [[ids.get(str(x), -1) for x in q]
                                               for q in sfg.loops]})
        elif w == "ipb":
            f = sfg.iteration_period_bound()
            steps.append({"kind": w, "num": int(f.numerator), "den": int(f.denominator)})
        elif w == "cp":
            if not any(x for n in g for x in n["lat"]) or delay_loop(g):
                continue  # no schedule has length 0 or keeps values for ever
            steps.append({"kind": w, "cp": int(sfg.critical_path_time())})
        elif w == "count":
            c = sfg.operation_counter()
            steps.append({"kind": w, "n": [{"t": t, "c": int(c[t])} for t in
                                           sorted({n["k"] for n in g} | {"add", "nope"})]})
        elif w == "rlb":
            t = rng.choice(sorted({n["k"] for n in g}))
            T = rng.randint(1, 9)
            ex = [o.execution_time for o in ops if str(o.type_name()) == t]
            if None in ex:
                try:
                    sfg.resource_lower_bound(t, T)
                    steps.append({"kind": "refuse", "exc": False})
                except ValueError:
                    steps.append({"kind": "refuse", "exc": True})
            else:
                steps.append({"kind": w, "ex": [int(x) for x in ex], "T": T,
                              "bound": int(sfg.resource_lower_bound(t, T))})
                try:
                    sfg.resource_lower_bound(t, rng.choice([0, -1]))
                    steps.append({"kind": "refuse", "exc": False})
                except ValueError:
                    steps.append({"kind": "refuse", "exc": True})
        elif w == "paths":
            n = rng.randint(2, 5)
            adj = [rng.sample(range(1, n + 1), rng.randint(0, n)) for _ in range(n)]
            nodes = [f"n{i}" for i in range(n)]
            a, b = rng.randint(1, n), rng.randint(1, n)
            d = {nodes[i]: [nodes[j - 1] for j in r] for i, r in enumerate(adj) if r}
            got = sfg.find_all_paths(d, nodes[a - 1], nodes[b - 1])
            steps.append({"kind": w, "adj": adj, "a": a, "b": b,
                          "paths": [[nodes.index(x) + 1 for x in p] for p in got]})
    return {"g": g, "steps": steps}


def timing(rng, d):
    """Latencies per node and output port, input offsets 0; execution times."""
    for n in d["nodes"]:
        k = n["k"]
        if k in ("in", "out", "t", "c"):
            continue
        i, o = gen.KINDS[k]
        base = rng.choice([0, 1, 1, 2, 3, 7])
        n["lat"] = {**{f"in{j}": 0 for j in range(i)},
                    **{f"out{j}": max(0, base + rng.choice([0, 0, 1, -1]))
                       for j in range(o)}}
        if rng.random() < 0.95:
            n["exec"] = rng.randint(1, 4)


def replay(arg):
    out = []
    for g in arg["gs"]:
        rng = random.Random(f"{arg['seed']}/{json.dumps(g)}")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            d = desc_of(g)
            timing(rng, d)
            out.append(record(rng, gen.build(d)))
    return out


def relabel(rng, sfg, names):
    """Other identifiers for the operations."""
    ids = names(len(sfg.operations))
    for o, x in zip(sfg.operations, ids):
        o.graph_id = x
    return sfg()


def case(arg):
    rng = random.Random(arg["seed"])
    d = gen.random_graph(rng, n_ops=rng.randint(1, 8), n_in=rng.randint(1, 2),
                         n_out=rng.randint(1, 2), n_del=rng.randint(0, 4),
                         n_const=rng.choice([0, 0, 1]),
                         kinds=[k for k in gen.FIELD if k != "div"] if rng.random() < 0.7
                         else ["add", "addsub", "sub", "shift", "lshift", "rshift", "mul",
                               "cmul", "mad", "mads"],
                         coef=gen.REAL, mods="r")
    timing(rng, d)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sfg = gen.build(d)
        if any(not o.output(0).signals for o in sfg.input_operations):
            return None
        if rng.random() < 0.3:
            sfg = relabel(rng, sfg, lambda n: rng.sample(
                ["add1t", "t", "tt", "in", "sub", "x9", "addsub0add0"]
                + [f"q{i}t{i}" for i in range(n)], n))
        return record(rng, sfg)


def check(ctx):
    ctx.assumptions += ["operations need all inputs at their start; an operation's latency "
                        "in a loop is its largest output offset"]
    gs = small_graphs(ctx, [1, 2, 3])
    recs = ctx.drive(replay, [{"gs": gs[i:i + 40], "seed": f"{ctx.seed}/{r}"}
                              for r in range(ctx.scale(1, 10))
                              for i in range(0, len(gs), 40)])
    ctx.validate("BoundTrace", recs, name="model_graphs")
    recs = ctx.drive(case, [{"seed": f"{ctx.seed}/{i}"}
                            for i in range(ctx.scale(800, 20000))])
    for t in recs:
        for s in t["steps"]:
            ctx.count("step_" + s["kind"])
            if s["kind"] == "loops":
                ctx.count("loops", len(s["loops"]))
    ctx.validate("BoundTrace", recs, name="graphs")
