"""Random signal flow graphs built with the real API, and their projection.

A *description* is plain data (so that a failing case can be written to a replay
file); ``build`` turns it into a real ``SFG``; ``project`` reads the structure of a
real SFG back through the public accessors (ports, signals, parameters).
"""
import random

KINDS = {
    # name: (inputs, outputs)
    "c": (0, 1), "add": (2, 1), "sub": (2, 1), "addsub": (2, 1), "neg": (1, 1),
    "cmul": (1, 1), "mul": (2, 1), "min": (2, 1), "max": (2, 1), "abs": (1, 1),
    "mad": (3, 1), "mads": (3, 1), "r2bfly": (2, 2), "sym2p": (2, 2),
    "lshift": (1, 1), "t": (1, 1), "in": (0, 1), "out": (1, 0),
    "ser2p": (2, 2), "par2p": (2, 2), "ser3p": (3, 3), "rfs3p": (3, 3),
    "dontcare": (0, 1), "sink": (1, 0), "shiftaddsub": (2, 1), "rshift": (1, 1),
    "shift": (1, 1), "imul": (1, 1), "div": (2, 1), "rec": (1, 1),
    "r2difbfly": (2, 2), "r2ditbfly": (2, 2), "r2tfbfly": (2, 2), "r4bfly": (4, 4),
}
LINEAR = ["add", "sub", "addsub", "neg", "cmul", "r2bfly", "sym2p"]
ALL = LINEAR + ["lshift", "min", "max", "abs", "mad", "mads"]
#: operations whose function maps homomorphically to the field domain
FIELD_LINEAR = LINEAR + ["shiftaddsub", "lshift", "rshift", "shift", "imul", "r2difbfly",
                         "r2ditbfly", "r2tfbfly", "r4bfly", "ser2p", "par2p", "ser3p",
                         "rfs3p"]
FIELD = FIELD_LINEAR + ["mul", "mad", "mads"]
CPLX = (1, -1, 2, -2, 0.5, -0.5, 0.25, 1j, -1j, 1 + 1j, 0.5 - 0.5j, 2 - 1j, -1.5)
REAL = (1, -1, 2, -2, 0.5, -0.5, 0.25, 3, -1.5, 0.75)


def random_desc(rng, n_ops=5, n_in=1, n_out=1, n_del=1, kinds=None, n_const=0,
                coef=(-2, -1, 2, 3), max_init=0, latency=None, acyclic=False,
                mods=False, inits=None):
    """A random well-formed SFG description.

    nodes: list of dicts {k: kind, v: parameter, lat: [...]}; every node's inputs are
    given as ``src``: list of (node index, output port).  Loops always contain a delay.
    """
    kinds = kinds or LINEAR
    nodes = []

    def new(k, v=0, **kw):
        nodes.append({"k": k, "v": v, "src": [], **kw})
        return len(nodes) - 1

    ports = []
    for _ in range(n_in):
        ports.append((new("in"), 0))
    for _ in range(n_const):
        ports.append((new("c", rng.choice(coef)), 0))
    delays = []
    for _ in range(n_del):
        d = new("t", rng.choice([0] + [rng.randint(-max_init, max_init)]) if max_init else 0)
        if inits:
            nodes[d]["v"] = rng.choice(inits)
        delays.append(d)
        if not acyclic:
            ports.append((d, 0))
    unused = list(ports)
    pend = list(delays) if acyclic else []

    def pick():
        if unused and rng.random() < 0.75:
            p = unused.pop(rng.randrange(len(unused)))
        else:
            p = rng.choice(ports)
            if p in unused:
                unused.remove(p)
        return p

    for _ in range(n_ops):
        k = rng.choice(kinds)
        v = 0
        if k in ("cmul", "c", "r2difbfly", "r2ditbfly", "r2tfbfly"):
            v = rng.choice(coef)
        elif k == "sym2p":
            v = rng.choice((-1, 0, 1) if not mods else (-1, 0, 1, 0.5, -0.25))
        elif k in ("lshift", "rshift"):
            v = rng.randint(0, 2)
        elif k == "shift":
            v = rng.randint(-2, 2)
        elif k in ("addsub", "mad", "mads", "shiftaddsub"):
            v = rng.randint(0, 1)
        elif k in ("ser2p", "par2p"):
            v = rng.choice((0, 1, 2) if not mods else (0, 0.25, 0.5, 1, 1.5, 2))
        elif k == "rfs3p":
            v = rng.choice((0, 1) if not mods else (0, 0.25, 0.5, 1))
        elif k == "ser3p":
            v = rng.choice((0, 1, 2) if not mods else (0, 0.25, 0.5, 1, 1.5, 2))
        n = new(k, v)
        if k == "mads":
            nodes[n]["w"] = rng.randint(0, 1)
        if k == "r2tfbfly":
            nodes[n]["w"] = rng.choice(coef)
        if k == "ser3p":
            nodes[n]["w"] = rng.choice([x for x in (0, 0.5, 1, 2) if 0 <= v + x <= 2
                                        and (mods or x == int(x))])
        if mods and k in ("add", "sub", "addsub", "shiftaddsub"):
            if rng.random() < 0.3:
                nodes[n]["so"] = rng.randint(1, 2)
            if mods == "j" and rng.random() < 0.3:
                nodes[n]["j"] = 1
        if k == "shiftaddsub":
            nodes[n]["sh"] = rng.randint(0, 3)
        nodes[n]["src"] = [pick() for _ in range(KINDS[k][0])]
        for o in range(KINDS[k][1]):
            ports.append((n, o))
            unused.append((n, o))
        if pend and rng.random() < 0.5:
            d = pend.pop()
            nodes[d]["src"] = [pick()]
            ports.append((d, 0))
            unused.append((d, 0))
    for d in delays:
        if not nodes[d]["src"]:
            cand = [p for p in (unused or ports) if not (acyclic and p[0] == d)]
            p = rng.choice(cand or ports)
            if p in unused:
                unused.remove(p)
            nodes[d]["src"] = [p]
            if acyclic:
                unused.append((d, 0))
                ports.append((d, 0))
    outs = 0
    # every dangling port becomes an output
    for p in list(unused):
        if nodes[p[0]]["k"] == "c" and outs:
            continue
        n = new("out")
        nodes[n]["src"] = [p]
        outs += 1
    used = {nodes[i]["src"][0] for i in range(len(nodes)) if nodes[i]["k"] == "out"}
    while outs < n_out:
        cand = [p for p in ports if p not in used]
        if not cand:
            break
        p = rng.choice(cand)
        used.add(p)
        n = new("out")
        nodes[n]["src"] = [p]
        outs += 1
    return {"nodes": nodes}


def make_op(node, **kw):
    import b_asic as B

    k, v = node["k"], node["v"]
    kw = dict(kw)
    if node.get("name"):
        kw["name"] = node["name"]
    if k == "in":
        return B.Input(**kw)
    if k == "out":
        return B.Output(**kw)
    if k == "c":
        return B.Constant(v, **kw)
    if k in ("add", "sub", "addsub", "shiftaddsub"):
        if node.get("so"):
            kw["shift_output"] = node["so"]
        if node.get("j"):
            kw["mul_j"] = True
    if k == "add":
        return B.Addition(**kw)
    if k == "sub":
        return B.Subtraction(**kw)
    if k == "addsub":
        return B.AddSub(bool(v), **kw)
    if k == "shiftaddsub":
        return B.ShiftAddSub(is_add=bool(v), shift=node.get("sh", 0), **kw)
    if k == "sfg":
        op = build(node["sub"], node.get("name", ""))
        return op
    if k == "neg":
        return B.Negation(**kw)
    if k == "cmul":
        return B.ConstantMultiplication(v, **kw)
    if k == "mul":
        return B.Multiplication(**kw)
    if k == "min":
        return B.Min(**kw)
    if k == "max":
        return B.Max(**kw)
    if k == "abs":
        return B.Absolute(**kw)
    if k == "mad":
        return B.MAD(do_add=bool(v), **kw)
    if k == "mads":
        return B.MADS(is_add=bool(v), do_addsub=bool(node.get("w", 1)), **kw)
    if k == "r2bfly":
        return B.R2Butterfly(**kw)
    if k == "sym2p":
        return B.SymmetricTwoportAdaptor(v, **kw)
    if k == "ser2p":
        return B.SeriesTwoportAdaptor(v, **kw)
    if k == "par2p":
        return B.ParallelTwoportAdaptor(v, **kw)
    if k == "lshift":
        return B.LeftShift(v, **kw)
    if k == "ser3p":
        return B.SeriesThreeportAdaptor((v, node["w"]), **kw)
    if k == "rfs3p":
        return B.ReflectionFreeSeriesThreeportAdaptor(v, **kw)
    if k == "rshift":
        return B.RightShift(v, **kw)
    if k == "shift":
        return B.Shift(v, **kw)
    if k == "imul":
        return B.ImaginaryMultiplication(**kw)
    if k == "div":
        return B.Division(**kw)
    if k == "rec":
        return B.Reciprocal(**kw)
    if k == "r2difbfly":
        return B.R2DIFButterfly(v, **kw)
    if k == "r2ditbfly":
        return B.R2DITButterfly(v, **kw)
    if k == "r2tfbfly":
        return B.R2TFButterfly(v, node["w"], **kw)
    if k == "r4bfly":
        return B.R4Butterfly(**kw)
    if k == "t":
        return B.Delay(initial_value=v, **kw)
    if k == "dontcare":
        return B.DontCare(**kw)
    if k == "sink":
        return B.Sink(**kw)
    raise ValueError(k)


def build(desc, name="", ops=None):
    """Build the real SFG of a description (its operations are put into ``ops``)."""
    import b_asic as B

    ops = [] if ops is None else ops
    for node in desc["nodes"]:
        op = make_op(node)
        if node.get("lat"):
            op.set_latency_offsets(node["lat"])
        if node.get("exec") is not None:
            op.execution_time = node["exec"]
        ops.append(op)
    for node, op in zip(desc["nodes"], ops):
        for i, (s, p) in enumerate(node["src"]):
            op.input(i).connect(ops[s].output(p))
    ins = [o for o in ops if isinstance(o, B.Input)]
    outs = [o for o in ops if isinstance(o, B.Output)]
    return B.SFG(ins, outs, name=name)


def default_latencies(rng, desc, lats=(1, 2, 3), execs=(1, 2), in_off=False,
                      per_node=False, out_spread=False):
    """Attach latency offsets/execution times to the operations of a description."""
    by_kind = {}
    for n in desc["nodes"]:
        k = n["k"]
        if k in ("in", "out", "t", "c", "dontcare", "sink", "sfg"):
            if k == "c":
                n["lat"] = {"out0": 0}
                n["exec"] = 0
            continue
        if k not in by_kind or per_node:
            i, o = KINDS[k]
            base = rng.choice(lats)
            d = {f"in{j}": (rng.choice([0, 0, 1]) if in_off else 0) for j in range(i)}
            mx = max(d.values())
            for j in range(o):
                d[f"out{j}"] = max(mx, base + (rng.randint(0, 1) if out_spread else 0))
            by_kind[k] = (d, rng.choice([e for e in execs]))
        n["lat"], n["exec"] = dict(by_kind[k][0]), by_kind[k][1]
    return desc


# ---------------------------------------------------------------- projection
def intval(x):
    """Exact integer or None."""
    if x is None or isinstance(x, (str, list, tuple, dict)):
        return None
    try:
        if isinstance(x, complex):
            if x.imag != 0:
                return None
            x = x.real
        i = int(x)
    except Exception:
        return None
    return i if i == x else None


def op_param(op):
    """(v, w): the parameters that decide the operation's function."""
    k = str(op.type_name())
    if k in ("cmul", "c", "sym2p", "lshift", "ser2p", "par2p", "rfs3p"):
        return intval(op.param("value")), 0
    if k == "ser3p":
        a, b = op.param("value")
        return intval(a), intval(b)
    if k == "t":
        return intval(op.initial_value), 0
    if k == "addsub":
        return int(bool(op.is_add)), 0
    if k == "mad":
        return int(bool(op.do_add)), 0
    if k == "mads":
        return int(bool(op.is_add)), int(bool(op.do_addsub))
    return 0, 0


def project(sfg):
    """The structure of a real SFG as plain data, read through ports and signals."""
    ops = list(sfg.operations)
    ids = [str(o.graph_id) for o in ops]
    nodes = []
    edges = []
    idx = {id(o): i for i, o in enumerate(ops)}
    for o in ops:
        v, w = op_param(o)
        src = []
        for p in o.inputs:
            sig = p.signals[0] if p.signals else None
            if sig is None or sig.source is None:
                src.append([0, 0])
                continue
            so = sig.source.operation
            src.append([idx[id(so)] + 1 if id(so) in idx else 0, sig.source.index + 1])
            edges.append(
                {
                    "id": str(sig.graph_id),
                    "u": str(so.graph_id), "p": sig.source.index,
                    "v": str(o.graph_id), "q": p.index,
                }
            )
        nodes.append(
            {
                "id": str(o.graph_id), "k": str(o.type_name()), "v": v, "w": w,
                "ni": o.input_count, "no": o.output_count, "src": src,
                "name": str(o.name),
            }
        )
    return {
        "nodes": nodes,
        "edges": edges,
        "ins": [ids.index(str(o.graph_id)) + 1 for o in sfg.input_operations],
        "outs": [ids.index(str(o.graph_id)) + 1 for o in sfg.output_operations],
    }


def alive(desc):
    """Every node reaches an output; no delay self-loop; no input wired to an output."""
    nodes = desc["nodes"]
    seen = set()
    stack = [i for i, n in enumerate(nodes) if n["k"] == "out"]
    if not stack:
        return False
    while stack:
        i = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        stack.extend(s for s, _ in nodes[i]["src"])
    for i, n in enumerate(nodes):
        if i not in seen:
            return False
        if n["k"] == "t" and n["src"][0][0] == i:
            return False
        if n["k"] == "out" and nodes[n["src"][0][0]]["k"] in ("in", "c"):
            return False
    # at least one operation reached from an input through combinational edges is
    # guaranteed by aliveness of the inputs; loops of delays only are excluded
    for i, n in enumerate(nodes):
        j, k = i, 0
        while nodes[j]["k"] == "t" and k <= len(nodes):
            j, k = nodes[j]["src"][0][0], k + 1
        if k > len(nodes):
            return False
    return True


class NoGraph(Exception):
    """The generator found no well-formed graph: the case is skipped."""


def random_graph(rng, **kw):
    for _ in range(6000):
        d = random_desc(rng, **kw)
        if alive(d):
            return d
    raise NoGraph
