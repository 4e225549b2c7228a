"""C13: simulation against the dataflow machine; specs Dataflow, SimTrace, OpRel."""
import json
import random

from vlib import flow, gen, num

MAXLEN = 14


def desc_of(rng, mode):
    """A random description, possibly with nested graphs."""
    kw = {"kinds": gen.ALL, "max_init": 3}
    if mode == "field":
        kw = {"kinds": gen.FIELD, "coef": gen.REAL, "mods": "r", "inits": (0, 0, 1, 0.5)}
    elif mode == "cplx":
        kw = {"kinds": gen.FIELD, "coef": gen.CPLX, "mods": "j", "inits": (0, 0, 1j, 0.5)}
    top = gen.random_graph(rng, n_ops=rng.randint(2, 8), n_in=rng.randint(1, 3),
                           n_del=rng.randint(0, 4), n_const=rng.choice([0, 0, 1]),
                           n_out=rng.randint(1, 2), **kw)
    return top, kw


def chain(rng, d, kw):
    """Put a chain of delays in one connection."""
    n = d["nodes"]
    i = rng.choice([i for i, x in enumerate(n) if x["src"]])
    q = rng.randrange(len(n[i]["src"]))
    src = n[i]["src"][q]
    for _ in range(rng.randint(2, 4)):
        n.append({"k": "t", "v": rng.choice(kw.get("inits") or (0, 1, -2)), "src": [src]})
        src = (len(n) - 1, 0)
    n[i]["src"][q] = src


def nest(rng, top, kw, depth=1):
    """Replace one operation by a nested graph with the same numbers of ports."""
    n_in_out = [(i, gen.KINDS[n["k"]]) for i, n in enumerate(top["nodes"])
                if n["k"] not in ("in", "out", "t", "c", "sfg")]
    if not n_in_out:
        return
    i, (a, b) = rng.choice(n_in_out)
    for _ in range(60):
        sub = gen.random_graph(rng, n_ops=rng.randint(1, 4), n_in=a,
                               n_del=rng.randint(0, 2), n_out=b, **kw)
        if rng.random() < 0.4:
            chain(rng, sub, kw)
        nb = sum(x["k"] == "out" for x in sub["nodes"])
        if nb == b:
            break
    else:
        return
    if depth > 1:
        nest(rng, sub, kw, depth - 1)
    top["nodes"][i] = {"k": "sfg", "v": 0, "src": top["nodes"][i]["src"], "sub": sub,
                       "lat": None}


def names(desc, prefix="n"):
    for i, n in enumerate(desc["nodes"]):
        n["name"] = f"{prefix}{i}"
        if n["k"] == "sfg":
            names(n["sub"], n["name"] + "_")


def case(arg):
    import numpy as np

    from b_asic import Simulation

    rng = random.Random(arg["seed"])
    mode = arg["mode"]
    m = 0 if mode == "int" else num.P
    desc, kw = desc_of(rng, mode)
    nested = arg["nested"]
    if nested:
        nest(rng, desc, kw, rng.randint(1, 2))
        if rng.random() < 0.4:
            nest(rng, desc, kw, 1)
    names(desc)
    raws = []
    g, paths = flow.of_desc(desc, m, raws)
    sfg = gen.build(desc)
    x = flow.random_x(rng, len(g["ins"]), MAXLEN, m, mode == "cplx")
    top = flow.safe_length(g, raws, MAXLEN)
    if top < 3:
        return None
    length = top
    provs = []
    limited = rng.random() < 0.6
    if limited:
        length = rng.randint(1, top)
    for i in range(len(g["ins"])):
        col = [row[i] for row in x]
        z = rng.random()
        if z < 0.25:
            c = col[0]
            for row in x:
                row[i] = c
            provs.append(c)
        elif not limited or z < 0.5:
            provs.append(lambda n, col=col: col[n])
        else:
            provs.append(col[:length] if rng.random() < 0.5 else np.array(col[:length]))
    has_list = any(not callable(p) and hasattr(p, "__len__") for p in provs)
    if not has_list:
        length = top
    how = rng.random()
    if how < 0.5:
        sim = Simulation(sfg, provs)
    else:
        sim = Simulation(sfg)
        if how < 0.75:
            sim.set_inputs(provs)
        else:
            for i in rng.sample(range(len(provs)), len(provs)):
                sim.set_input(i, provs[i])
    # result keys by node name
    by_name = {str(o.name): o for o in sim.sfg.operations}
    keys = []
    for p, nd in zip(paths, g["nodes"]):
        if len(p) > 1:
            keys.append([])
            continue
        o = by_name[f"n{p[0]}"]
        gid = str(o.graph_id)
        n_out = gen.KINDS[nd["k"]][1]
        if nd["k"] == "out" or n_out == 1:
            keys.append([gid])
        else:
            keys.append([f"{gid}.{q}" for q in range(n_out)])
    steps = []
    it = 0
    for _ in range(arg["len"]):
        z = rng.random()
        e = {"op": "step", "n": 0, "save": rng.random() < 0.8, "x": []}
        if z < 0.3:
            pass
        elif z < 0.5:
            e["op"], e["n"] = "for", rng.randint(0, 4)
        elif z < 0.7:
            e["op"], e["n"] = "until", rng.randint(max(0, it - 1), it + 4)
        elif z < 0.75 and has_list:
            e["op"], e["n"] = "run", length
        elif z < 0.82:
            e["op"] = "clearres"
        elif z < 0.9:
            e["op"] = "clearst"
        else:
            e["op"] = "eval"
            row = flow.random_x(rng, len(g["ins"]), 1, m, mode == "cplx")[0]
            e["x"] = [num.val(v, m) for v in row]
        if not has_list:  # stay within exact arithmetic
            tgt = {"step": it + 1, "for": it + e["n"], "until": e["n"]}.get(e["op"], 0)
            if tgt > top:
                break
        ret = []
        e["exc"] = False
        try:
            if e["op"] == "step":
                ret = sim.step(e["save"])
            elif e["op"] == "for":
                ret = sim.run_for(e["n"], e["save"])
            elif e["op"] == "until":
                ret = sim.run_until(e["n"], save_results=e["save"])
            elif e["op"] == "run":
                ret = sim.run(e["save"])
            elif e["op"] == "clearres":
                sim.clear_results()
            elif e["op"] == "clearst":
                sim.clear_state()
            else:
                ret = sfg.evaluate(*row) if rng.random() < 0.5 else \
                    sfg.evaluate_outputs(row)
                if not hasattr(ret, "__len__"):
                    ret = [ret]
        except IndexError:
            e["exc"] = True
        it = int(sim.iteration)
        e["it"] = it
        e["ret"] = [num.val(v, m) for v in ret]
        e["res"] = {str(k): [num.val(v, m) for v in vs]
                    for k, vs in sim.results.items()}
        steps.append(e)
    if not steps:
        return None
    t = {"g": g, "X": [[num.val(v, m) for v in row] for row in x], "len": length,
         "keys": keys, "exact": not nested, "steps": steps, "_desc": desc}
    return t


# ------------------------------------------------------------- design model
MODEL_DESC = {"nodes": [
    {"k": "in", "v": 0, "src": []},
    {"k": "t", "v": 2, "src": [(3, 0)]},
    {"k": "t", "v": -1, "src": [(1, 0)]},
    {"k": "sub", "v": 0, "src": [(0, 0), (4, 0)]},
    {"k": "cmul", "v": -2, "src": [(2, 0)]},
    {"k": "r2bfly", "v": 0, "src": [(3, 0), (1, 0)]},
    {"k": "out", "v": 0, "src": [(5, 0)]},
    {"k": "out", "v": 0, "src": [(5, 1)]},
]}
MODEL_X = [[3], [-1], [4], [1], [-5], [2], [2], [-3], [1], [5], [-2], [4], [3], [-1], [2]]


def replay(arg):
    """Replay behaviours of the model on a real Simulation."""
    from b_asic import Simulation

    desc = {"nodes": [dict(n) for n in MODEL_DESC["nodes"]]}
    names(desc)
    g, paths = flow.of_desc(desc, 0)
    sfg = gen.build(desc)
    out = []
    for h in arg["hists"]:
        sim = Simulation(sfg, [[r[0] for r in MODEL_X]])
        ids = {str(o.name): str(o.graph_id) for o in sim.sfg.operations}
        keys = [[ids[f"n{p[0]}"]] if nd["k"] != "r2bfly" else
                [ids[f"n{p[0]}"] + ".0", ids[f"n{p[0]}"] + ".1"]
                for p, nd in zip(paths, g["nodes"])]
        steps = []
        for e in h:
            ret = []
            if e["op"] == "step":
                ret = sim.step(e["save"])
            elif e["op"] == "for":
                ret = sim.run_for(e["n"], e["save"])
            elif e["op"] == "until":
                ret = sim.run_until(e["n"], e["save"])
            elif e["op"] == "clearres":
                sim.clear_results()
            elif e["op"] == "clearst":
                sim.clear_state()
            steps.append({
                **e, "x": [], "exc": False, "it": int(sim.iteration),
                "ret": [num.val(v, 0) for v in ret],
                "res": {str(k): [num.val(v, 0) for v in vs]
                        for k, vs in sim.results.items()},
            })
        out.append({"g": g, "X": MODEL_X, "len": len(MODEL_X), "keys": keys,
                    "exact": True, "steps": steps})
    return out


# ------------------------------------------------------- operation functions
SCALE = 4


def oprel(arg):
    """Single operations whose function is fixed by a defining relation."""
    import b_asic as B

    rng = random.Random(arg["seed"])
    ops = {"conj": B.ComplexConjugate(), "abs": B.Absolute(), "sqrt": B.SquareRoot(),
           "recsqrt": B.ReciprocalSquareRoot(), "div": B.Division(), "rec": B.Reciprocal(),
           "min": B.Min(), "max": B.Max(), "mul": B.Multiplication(),
           "imul": B.ImaginaryMultiplication(), "neg": B.Negation()}
    trip = [(3, 4), (4, 3), (0, 5), (5, 0), (6, 8), (-3, 4), (5, 12), (0, 0), (-8, -6),
            (0, -2), (-7, 0), (8, 15)]
    rows = []

    def enc(x):
        x = complex(x)
        if x.real in (float("inf"),) and x.imag == 0:
            return {"inf": 1, "re": 0, "im": 0}
        re, im = x.real * 3600, x.imag * 3600
        if abs(re - round(re)) > 1e-6 or abs(im - round(im)) > 1e-6:
            return {"inf": 2, "re": int(re), "im": int(im)}
        return {"inf": 0, "re": round(re), "im": round(im)}

    def g(r):
        return complex(rng.randint(-r, r), rng.randint(-r, r))

    for _ in range(arg["n"]):
        k = rng.choice(sorted(ops))
        real = rng.random() < 0.5
        if k in ("min", "max"):
            a = [rng.randint(-9, 9), rng.randint(-9, 9)]
        elif k in ("conj", "imul", "neg"):
            a = [rng.randint(-9, 9) if real else g(9)]
        elif k == "mul":
            a = [g(5), g(5)]
        elif k == "abs":
            a = [complex(*rng.choice(trip)) if not real else rng.randint(-9, 9)]
        elif k == "sqrt":
            z = g(4) if not real else rng.randint(0, 9)
            a = [z * z]
        elif k == "recsqrt":
            z = rng.choice([0, 1, 2, 3, 4, 5, 6])
            a = [z * z]
            if not real:
                z = complex(*rng.choice([(1, 1), (2, 1), (3, 4), (1, -1), (2, -4), (3, 0)]))
                a = [z * z]
        elif k == "rec":
            a = [rng.choice([0, 1, -2, 3, 4, 5, -6, 8]) if real else
                 complex(*rng.choice([(1, 1), (3, 4), (1, -2), (0, 1), (0, -5)]))]
        else:  # div
            b = rng.choice([0, 1, -2, 3, 4, 5, -6]) if real else \
                complex(*rng.choice([(1, 1), (3, 4), (1, -2), (0, 1), (2, 2)]))
            a = [g(9), b]
        a = [complex(z.real, z.imag + 0.0) if isinstance(z, complex) else z for z in a]
        y = ops[k].evaluate(*a)
        y2 = ops[k].evaluate_output(0, a)
        rows.append({"k": k, "a": [{"re": int(complex(v).real), "im": int(complex(v).imag)}
                                   for v in a],
                     "y": enc(y), "same": bool(y == y2)})
    return {"steps": rows}


MODEL_CFG = """SPECIFICATION Spec
INVARIANT Undivided
INVARIANT SavedOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    ctx.assumptions += [
        "values are exact: integers below 2^28, or dyadic complex numbers compared in "
        "Z_40961 with j mapped to a square root of -1",
        "loops contain a delay outside nested graphs",
    ]
    desc = {"nodes": [dict(n) for n in MODEL_DESC["nodes"]]}
    r = ctx.model("SimModel", MODEL_CFG, files={"model.json": {
        "g": flow.of_desc(desc, 0)[0], "X": MODEL_X, "depth": ctx.scale(3, 4)}})
    hs = [json.loads(x[3:]) for x in r.lines if x.startswith("TR|")]
    hs = sorted(hs, key=str)
    ctx.count("model_behaviours", len(hs))
    recs = ctx.drive(replay, [{"hists": hs[i:i + 40]} for i in range(0, len(hs), 40)])
    ctx.validate("SimTrace", recs, name="model_behaviours")
    n = ctx.scale(3600, 40000)
    modes = ["int", "field", "cplx"]
    args = [{"seed": f"{ctx.seed}/{i}", "mode": modes[i % 3], "nested": i % 4 == 3,
             "len": ctx.scale(8, 12)} for i in range(n)]
    recs = ctx.drive(case, args)
    for t in recs:
        for s in t["steps"]:
            ctx.count("call_" + s["op"])
        for nd in t["g"]["nodes"]:
            ctx.count("op_" + nd["k"])
    ctx.validate("SimTrace", recs, name="simulations")
    rel = ctx.drive(oprel, [{"seed": f"{ctx.seed}/rel/{i}", "n": 60}
                            for i in range(ctx.scale(16, 200))])
    ctx.validate("OpRel", rel, name="operations")
