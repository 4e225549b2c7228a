"""C21: responses and state equations of linear graphs; specs Lti, LtiModel, LtiTrace."""
import json
import random
import warnings
from fractions import Fraction

from vlib import flow, gen, num

P = num.P
MODEL = """SPECIFICATION Spec
INVARIANT Realised
INVARIANT Linear
INVARIANT Injected
CHECK_DEADLOCK FALSE
"""


def constants(rng, desc, coef):
    """Multiplications with constants in place of some operations."""
    nodes = desc["nodes"]
    for i, nd in enumerate(list(nodes)):
        if rng.random() < 0.5 or nd.get("so") or nd.get("j"):
            continue
        if nd["k"] not in ("cmul", "add", "sub"):
            continue
        nodes.append({"k": "c", "v": rng.choice(coef), "src": []})
        c = [len(nodes) - 1, 0]
        a = nd["src"]
        if nd["k"] == "cmul":
            nd["k"], nd["src"] = "mul", [a[0], c] if rng.random() < 0.5 else [c, a[0]]
        elif nd["k"] == "add" and rng.random() < 0.5:
            x = [a[0], c] if rng.random() < 0.5 else [c, a[0]]
            nd.update(k="mad", v=1, src=[*x, a[1]])
        else:
            x = [a[1], c] if rng.random() < 0.5 else [c, a[1]]
            nd.update(v=int(nd["k"] == "add"), w=1, src=[a[0], *x])
            nd["k"] = "mads"
    return desc


def nested(rng, desc, coef):
    """A graph around a nested one: its first two ports used side by side."""
    ins = sum(n["k"] == "in" for n in desc["nodes"])
    outs = sum(n["k"] == "out" for n in desc["nodes"])
    top = [{"k": "in", "v": 0, "src": []} for _ in range(ins)]
    src = [[i, 0] for i in range(ins)]
    if rng.random() < 0.5:
        top.append({"k": "t", "v": 0, "src": [[0, 0]]})
        src[0] = [len(top) - 1, 0]
    top.append({"k": "sfg", "v": 0, "src": src, "sub": desc})
    s = len(top) - 1
    for o in range(outs):
        top.append({"k": "cmul", "v": rng.choice(coef), "src": [[s, o]]})
        top.append({"k": "out", "v": 0, "src": [[len(top) - 1, 0]]})
    return {"nodes": top}


def key(op, p):
    return str(op.graph_id) if str(op.type_name()) == "out" else str(op.key(p, op.graph_id))


def fvec(v):
    return [num.field(x) for x in v]


def fmat(m):
    return [fvec(r) for r in m]


def bits(x):
    x = complex(x)
    return max(Fraction(r).denominator.bit_length() - 1 for r in (x.real, x.imag))


class NotOnGrid(Exception):
    pass


def grid(v, b):
    """Coefficients as field elements, if certainly identified; None if not certain."""
    out = []
    for x in v:
        x = complex(x)
        y = [x.real * 2**b, x.imag * 2**b]
        if max(map(abs, y)) > 2**40:
            return None
        if any(abs(u - round(u)) > 0.01 for u in y):
            raise NotOnGrid(f"coefficient {x} is no multiple of 2^-{b}")
        out.append(num.field(complex(*(round(u) / 2**b for u in y))))
    return out


def transfer(ss, tf, n_in, n_out, states, steps):
    """The transfer function and its poles and zeros as polynomials."""
    import numpy as np

    f = max([0] + [bits(x) for m in (ss.A, ss.B, ss.C, ss.D) for x in np.ravel(m)])
    b = (states + 2) * f
    if b > 18 or states > 6:
        return
    rows = [np.atleast_2d(tf[f"in{k}"][0]) for k in range(n_in)]
    den = grid(tf.denominator, b)
    nums = [[grid(r[o], b) for o in range(n_out)] for r in rows]
    if den is None or any(v is None for r in nums for v in r):
        return
    if any(len(r) != n_out for r in rows):
        raise RuntimeError("wrong number of outputs in the transfer function")
    steps.append({"kind": "tf", "num": nums, "den": den, "n": 2 * states + 3})
    raw = [x for r in rows for x in np.ravel(r)] + list(tf.denominator)
    if any(0 < abs(x) < 1e-9 for x in raw):
        return
    zpk = tf.zpk()
    dens, nums = [], []
    for k in range(n_in):
        z, p, g = zpk[f"in{k}"]
        if not isinstance(z, list):
            z, g = [z], [g]
        dens.append(grid(np.poly(p) if len(p) else [1], b))
        try:
            nums.append([grid(g[o] * np.poly(z[o]) if len(z[o]) else [g[o]], b)
                         for o in range(n_out)])
        except NotOnGrid:
            # roots lie too close together to be told from their polynomial
            big = [max(abs(z[o]), default=0) for o in range(n_out)]
            if max(big) > 100:
                return
            raise
    if all(d is not None for d in dens) and all(v is not None for r in nums for v in r):
        for d in dens:
            steps.append({"kind": "zpk", "num": nums, "den": d, "n": 2 * states + 3})


def observe(rng, sfg, acyclic, intc=False, want=("ss", "h", "from", "norms")):
    """What the code says about the graph."""
    m = 0 if intc else P
    ops = []
    g = flow.of_sfg(sfg, m, ops)
    node = {id(o): i for i, o in enumerate(ops, 1)}
    raws = [dict(zip("vw", flow.params(o))) for o in ops]
    for nd, r in zip(g["nodes"], raws):
        if nd["k"] == "t":
            r["v"] = 1
    states = sum(nd["k"] == "t" for nd in g["nodes"])
    horizon = states + 2 if acyclic else 12
    safe = flow.safe_length(g, raws, horizon)
    n_in, n_out = sfg.input_count, sfg.output_count
    steps = []
    if safe < 2 or (acyclic and safe < horizon):
        return None
    if "ss" in want and not intc:
        ss = sfg.to_ss()
        steps.append({"kind": "ss", **{k: fmat(getattr(ss, k)) if states or k == "D" else
                                       [[] for _ in range(n_out if k == "C" else 0)]
                                       for k in "ABCD"}, "states": states})
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            transfer(ss, sfg.to_tf(), n_in, n_out, states, steps)
    # (maximal number of iterations asked for, horizon within which all is known)
    if acyclic:
        it = rng.choice([-1, -1, horizon, horizon + 3, rng.randint(1, horizon)])
    else:
        it = rng.choice([safe, rng.randint(1, safe)])
    n = horizon if acyclic and (it < 0 or it >= horizon) else it
    kw = {} if it == -1 and rng.random() < 0.5 else {"max_iters": it}
    every = rng.random() < 0.6
    shown = [(o, p) for o in ops for p in range(max(1, o.output_count))
             if (o in sfg.operations or str(o.type_name()) == "out")
             and (str(o.type_name()) == "out" if not every else
                  str(o.type_name()) not in ("in", "c", "sink", "dontcare"))]
    if "h" in want:
        thr = 0
        if intc:
            thr = rng.randint(0, 4)
            kw["threshold"] = thr
        got = sfg.get_impulse_responses(**kw, **({"all_nodes": True} if every else {}))
        if len(got) < len(shown):
            raise RuntimeError(f"responses reported only for {sorted(got)}")
        h = [{"k": k + 1, "node": node[id(o)], "port": p + 1, "y": fvec(got[key(o, p)][k])
              if m else [num.integer(x) for x in got[key(o, p)][k]]}
             for o, p in shown for k in range(n_in)]
        if intc:
            outs = {node[id(o)] for o in sfg.output_operations}
            steps.append({"kind": "cut", "n": n, "thr": thr,
                          "h": [e for e in h if e["node"] in outs]})
            kw.pop("threshold")
        else:
            steps.append({"kind": "impulse", "n": n, "full": True, "h": h})
    if "from" in want and not intc:
        flat = [o for o in sfg.operations if id(o) in node]
        cand = [o for o in flat if str(o.type_name()) not in ("out", "sink", "dontcare")
                and all(p.signals for p in o.outputs)]
        default = {str(o.graph_id): o for o in flat
                   if str(o.type_name()) not in ("in", "out", "t", "c", "sink", "dontcare")}
        if rng.random() < 0.5 and cand:
            ids = [o for o in rng.sample(cand, rng.randint(1, len(cand)))
                   if str(o.type_name()) != "c"]
            got = sfg.get_impulse_responses_from_nodes(
                [str(o.graph_id) for o in ids], **kw)
            asked = {str(o.graph_id): o for o in ids}
        else:
            got = sfg.get_impulse_responses_from_nodes(**kw)
            asked = default
        outs = [str(o.graph_id) for o in sfg.output_operations]
        h = []
        for i, o in asked.items():
            if any(i not in got[u] for u in outs):
                raise RuntimeError(f"no response from {i}")
            h.append({"node": node[id(o)], "ports": list(range(1, o.output_count + 1)),
                      "y": [fvec(got[u][i]) for u in outs]})
        if h:
            steps.append({"kind": "from", "n": n, "full": True, "h": h})
    if "norms" in want and acyclic:
        a = {"all_nodes": True} if every else {}
        if intc:
            got = sfg.get_l1_norms(**a)
            steps.append({"kind": "l1", "n": horizon, "h": [
                {"node": node[id(o)], "port": p + 1, "l1": num.integer(round(got[key(o, p)], 6))}
                for o, p in shown]})
        else:
            conj = conjugate(g, ops)
            rs = sfg.get_impulse_responses(**a)
            got = sfg.get_l2_norms(**a)
            h = []
            for o, p in shown:
                b = 2 * max([0] + [bits(x) for r in rs[key(o, p)] for x in r])
                q = grid([got[key(o, p)] ** 2], b) if b <= 34 else None
                if q is not None and conj:
                    h.append({"node": node[id(o)], "port": p + 1, "l2": q[0]})
            if h:
                steps.append({"kind": "norms", "n": horizon, "conj": conj, "h": h})
    return {"g": g, "steps": steps} if steps else None


def conjugate(g, ops):
    """The graph with conjugated coefficients; None if it multiplies by j otherwise."""
    nodes = []
    for nd, o in zip(g["nodes"], ops):
        nd = dict(nd)
        if nd["j"] or nd["k"] in ("imul", "r4bfly"):
            return None
        v, w = flow.params(o)[:2]
        if nd["k"] in ("cmul", "c", "r2difbfly", "r2ditbfly", "r2tfbfly"):
            nd["v"] = num.field(complex(v).conjugate())
            nd["w"] = num.field(complex(w).conjugate())
        nodes.append(nd)
    return {**g, "nodes": nodes}


def back(g, vals):
    nodes = [{"k": n["k"], "v": vals.get(str(n["v"]), 0) if n["k"] == "cmul" else 0,
              "src": [[s - 1, p - 1] for s, p in n["src"]]} for n in g["nodes"]]
    return {"nodes": nodes}


def replay(arg):
    out = []
    for g in arg["gs"]:
        rng = random.Random(json.dumps(g))
        sfg = gen.build(back(g, arg["vals"]))
        out.append(observe(rng, sfg, False))
    return [t for t in out if t]


def case(arg):
    rng = random.Random(arg["seed"])
    acyclic = rng.random() < 0.5
    intc = rng.random() < 0.25
    kinds = gen.LINEAR if intc else rng.choice([gen.LINEAR, gen.FIELD_LINEAR, gen.FIELD_LINEAR])
    cplx = not intc and rng.random() < 0.3
    desc = gen.random_desc(
        rng, n_ops=rng.randint(1, 8), n_in=rng.randint(1, 3), n_out=rng.randint(1, 2),
        n_del=rng.randint(0, 5), kinds=kinds, acyclic=acyclic or intc,
        coef=(-2, -1, 2, 3, 0) if intc else gen.CPLX if cplx else gen.REAL,
        mods=False if intc else ("j" if cplx else True),
        inits=None if rng.random() < 0.6 else ((0, 1, 2) if intc else (0, 1, 0.5, -2)))
    if rng.random() < 0.3:
        desc = constants(rng, desc, (-2, -1, 2, 3) if intc else gen.REAL)
    if rng.random() < 0.25:
        desc = nested(rng, desc, (-2, -1, 2, 3) if intc else gen.REAL)
    sfg = gen.build(desc)
    t = observe(rng, sfg, acyclic or intc, intc)
    return t and {**t, "_desc": desc}


def check(ctx):
    ctx.assumptions += [
        "dyadic coefficients, mapped exactly into a prime field; lengths for which double "
        "precision is exact; polynomials are identified by rounding to the exact grid of "
        "their coefficients",
        "constants occur only as factors (is_linear also accepts added constants)",
        "poles and zeros at the origin are not reported (as the test suite fixes)"]
    vals = {str(num.field(0.5)): 0.5}
    r = ctx.model("LtiModel", MODEL, files={"model.json": {
        "kinds": ["t", "cmul", "add", "sub", "r2bfly"], "n": [1, 2], "coef": num.field(0.5),
        "inputs": [0, 1, 3], "length": ctx.scale(3, 4)}})
    gs = [json.loads(x) for x in sorted({x[3:] for x in r.lines if x.startswith("TR|")})]
    r = ctx.model("LtiModel", MODEL, files={"model.json": {
        "kinds": ctx.scale(["t", "cmul", "add"], ["t", "cmul", "add", "r2bfly"]), "n": [3],
        "coef": num.field(0.5), "inputs": [1, 3], "length": 3}})
    gs += [json.loads(x) for x in sorted({x[3:] for x in r.lines if x.startswith("TR|")})]
    ctx.count("model_graphs", len(gs))
    rng = ctx.rng("graphs")
    gs = rng.sample(gs, min(len(gs), ctx.scale(400, 20000)))
    recs = ctx.drive(replay, [{"gs": gs[i:i + 20], "vals": vals} for i in range(0, len(gs), 20)])
    ctx.validate("LtiTrace", recs, name="model_graphs")
    recs = ctx.drive(case, [{"seed": f"{ctx.seed}/{i}"} for i in range(ctx.scale(600, 12000))])
    for t in recs:
        for s in t["steps"]:
            ctx.count("step_" + s["kind"])
    ctx.validate("LtiTrace", recs, name="random")
