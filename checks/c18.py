"""C18: precedence, topological order, required inputs; specs Order, GraphModel, OrderTrace."""
import json
import random
import warnings

from checks.c17 import universe
from vlib import gen


def graph_of(sfg):
    """Operations of a graph (nested graphs are operations) through ports and signals."""
    ops = [c for c in universe(sfg) if hasattr(c, "inputs")]
    num = {id(o): i for i, o in enumerate(ops, 1)}
    g = [{"k": str(o.type_name()), "n": o.output_count,
          "src": [num[id(p.signals[0].source.operation)] for p in o.inputs]} for o in ops]
    return ops, num, {"g": g, "ins": [num[id(o)] for o in sfg.input_operations],
                      "outs": [num[id(o)] for o in sfg.output_operations]}


def observe(sfg, num, what):
    if what == "levels":
        return {"kind": "levels", "levels": [
            [[num.get(id(p.operation), -1), p.index + 1] for p in ports]
            for ports in sfg.get_precedence_list()]}
    if what == "topo":
        return {"kind": "topo", "order": [
            num.get(id(o), -1) for o in sfg.get_operations_topological_order()]}
    return {"kind": "req", "req": [
        [i + 1 for i in sfg.inputs_required_for_output(o)]
        for o in range(sfg.output_count)]}


def record(rng, sfg):
    ops, num, t = graph_of(sfg)
    t["steps"] = [observe(sfg, num, w) for w in
                  rng.sample(["levels", "topo", "req", "levels", "topo"], 5)]
    return t


def desc_of(g):
    """A description of a graph of the design model."""
    nodes = [{"k": n["k"], "v": 0, "src": [[s - 1, 0] for s in n["src"]]} for n in g]
    return {"nodes": nodes}


def replay(arg):
    out = []
    for g in arg["gs"]:
        rng = random.Random(json.dumps(g))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out.append(record(rng, gen.build(desc_of(g))))
    return out


def case(arg):
    import b_asic as B

    from checks import c14

    rng = random.Random(arg["seed"])
    kw = c14.kinds_kw("real")
    d = gen.random_graph(rng, n_ops=rng.randint(1, 12), n_in=rng.randint(1, 3),
                         n_out=rng.randint(1, 3), n_del=rng.randint(0, 4),
                         n_const=rng.choice([0, 1, 2]), **kw)
    c14.names(d)
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sfg = gen.build(d)
        counter = [0]
        for _ in range(arg["len"]):
            if any(not o.output(0).signals for o in sfg.input_operations):
                break
            out.append(record(rng, sfg))
            new = None
            for _ in range(20):
                got = c14.choose(rng, sfg, kw, counter)
                if got is None or got[0]["op"] == "dup":
                    continue
                try:
                    new = got[2]()
                except (ValueError, TypeError, KeyError):
                    continue
                if isinstance(new, B.SFG):
                    break
            if not isinstance(new, B.SFG):
                break
            sfg = new
            if len(sfg.operations) > 40:
                break
    return out


def single(arg):
    """Single operations: which inputs do the outputs depend on."""
    rng = random.Random(arg["seed"])
    k = arg["k"]
    node = {"k": k, "v": rng.choice([0.5, 0.25]) if k.endswith(("2p", "3p")) else
            rng.choice([2, 3, -1]), "w": 0.25 if k == "ser3p" else 2, "src": []}
    if k in ("addsub", "shiftaddsub", "mad", "mads"):
        node["v"], node["w"] = rng.randint(0, 1), rng.randint(0, 1)
        node["sh"] = rng.randint(0, 2)
    if k == "c" or k == "in":
        return None
    if k.endswith("shift"):
        node["v"] = rng.randint(0, 2)
    op = gen.make_op(node)
    n = op.input_count
    dep = [set() for _ in range(op.output_count)]
    for _ in range(20):
        x = [rng.choice([1, 2, 3, 5, 7, -4, 11]) for _ in range(n)]
        base = [op.evaluate_output(o, x) for o in range(op.output_count)]
        for i in range(n):
            y = list(x)
            y[i] = rng.choice([-2, 6, 13, 17])
            for o in range(op.output_count):
                if op.evaluate_output(o, y) != base[o]:
                    dep[o].add(i + 1)
    beyond = True
    for o in (-1, op.output_count):
        try:
            op.inputs_required_for_output(o)
            beyond = False
        except (IndexError, KeyError):
            pass
    return {"g": [], "ins": [], "outs": [], "steps": [{
        "kind": "op", "dep": [sorted(s) for s in dep], "nin": n, "beyond": beyond,
        "req": [[i + 1 for i in op.inputs_required_for_output(o)]
                for o in range(op.output_count)]}], "_k": k}


MODEL = """SPECIFICATION Spec
INVARIANT Same
INVARIANT Ends
CHECK_DEADLOCK FALSE
"""


def small_graphs(ctx, n):
    r = ctx.model("GraphModel", MODEL, files={"model.json": {"n": n}})
    gs = [json.loads(x) for x in sorted({x[3:] for x in r.lines if x.startswith("TR|")})]
    ctx.count("model_graphs", len(gs))
    return gs


def check(ctx):
    ctx.assumptions += ["graphs whose inputs all feed something",
                        "with loops the topological order is only required to be exact "
                        "for operations no loop feeds"]
    gs = small_graphs(ctx, ctx.scale([1, 2, 3], [1, 2, 3]))
    recs = ctx.drive(replay, [{"gs": gs[i:i + 40]} for i in range(0, len(gs), 40)])
    ctx.validate("OrderTrace", recs, name="model_graphs")
    recs = ctx.drive(case, [{"seed": f"{ctx.seed}/{i}", "len": 2 + i % 3}
                            for i in range(ctx.scale(500, 10000))])
    ctx.validate("OrderTrace", recs, name="graphs")
    ks = sorted(gen.KINDS)
    recs = ctx.drive(single, [{"seed": f"{ctx.seed}/{k}/{i}", "k": k} for k in ks
                              for i in range(ctx.scale(4, 40))])
    ctx.validate("OrderTrace", recs, name="operations")
