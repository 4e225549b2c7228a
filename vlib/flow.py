"""Graphs of the Dataflow specification: from descriptions and from real SFGs."""
from . import num

TOPLESS = ("t",)


def _topo(nodes):
    """A topological order of the nodes (delays first); None if there is a loop."""
    n = len(nodes)
    order = [i for i in range(n) if nodes[i]["k"] == "t"]
    done = set(order)
    rest = [i for i in range(n) if i not in done]
    while rest:
        ready = [i for i in rest if all(s - 1 in done for s, _ in nodes[i]["src"])]
        if not ready:
            return None
        order += ready
        done.update(ready)
        rest = [i for i in rest if i not in done]
    return [i + 1 for i in order]


def _node(k, v, w, m, j=0, so=0, sh=0):
    if k in ("cmul", "c", "t", "sym2p", "ser2p", "par2p", "ser3p", "rfs3p", "r2difbfly",
             "r2ditbfly", "r2tfbfly"):
        v = num.val(v, m)
        w = num.val(w, m)
    else:
        v, w = int(v), int(w)
    return {"k": k, "v": v, "w": w, "j": int(bool(j)), "so": int(so), "sh": int(sh)}


def finish(nodes, ins, outs, m):
    order = _topo(nodes)
    if order is None:  # leave the verdict to the specification
        order = list(range(1, len(nodes) + 1))
    return {"nodes": nodes, "order": order, "ins": ins, "outs": outs, "m": m}


def of_desc(desc, m, raws=None):
    """(graph, paths): the flattened graph of a description, and each node's path.

    Inputs and outputs of nested graphs disappear.
    """
    nodes, paths = [], []

    def walk(d, path):
        """Add the nodes of d; returns index map local -> global (or nested table)."""
        loc = []
        for i, nd in enumerate(d["nodes"]):
            if nd["k"] == "sfg":
                loc.append(walk(nd["sub"], path + (i,)))
            elif path and nd["k"] in ("in", "out"):
                loc.append(None)
            else:
                nodes.append(_node(nd["k"], nd.get("v", 0), nd.get("w", 0), m,
                                   nd.get("j", 0), nd.get("so", 0), nd.get("sh", 0)))
                paths.append(path + (i,))
                if raws is not None:
                    raws.append(nd)
                loc.append(len(nodes))
        return loc

    top = walk(desc, ())

    def resolve(stack, s, p):
        """Global source of local source (s, p) in the innermost graph of stack."""
        d, loc = stack[-1][0], stack[-1][1]
        nd = d["nodes"][s]
        if nd["k"] == "sfg":
            sub = nd["sub"]
            outs = [i for i, x in enumerate(sub["nodes"]) if x["k"] == "out"]
            ss, pp = sub["nodes"][outs[p]]["src"][0]
            return resolve(stack + [(sub, loc[s], s)], ss, pp)
        if nd["k"] == "in" and len(stack) > 1:
            k = [i for i, x in enumerate(d["nodes"]) if x["k"] == "in"].index(s)
            outer = stack[-2][0]
            ss, pp = outer["nodes"][stack[-1][2]]["src"][k]
            return resolve(stack[:-1], ss, pp)
        return [loc[s], p + 1]

    def wire(stack):
        d, loc = stack[-1][0], stack[-1][1]
        for i, nd in enumerate(d["nodes"]):
            if nd["k"] == "sfg":
                wire(stack + [(nd["sub"], loc[i], i)])
            elif loc[i] is not None:
                nodes[loc[i] - 1]["src"] = [resolve(stack, s, p) for s, p in nd["src"]]

    wire([(desc, top, None)])
    ins = [top[i] for i, nd in enumerate(desc["nodes"]) if nd["k"] == "in"]
    outs = [top[i] for i, nd in enumerate(desc["nodes"]) if nd["k"] == "out"]
    return finish(nodes, ins, outs, m), paths


def params(op):
    """(v, w, j, so, sh) of a real operation, through its public parameters."""
    k = str(op.type_name())
    v = w = j = so = sh = 0
    ps = op.params
    if k in ("add", "sub", "addsub", "shiftaddsub"):
        j, so = bool(ps.get("mul_j", op.mul_j)), op.shift_output
        if k != "add" and k != "sub":
            v = int(bool(op.is_add))
        if k == "shiftaddsub":
            sh = op.shift
    elif k in ("cmul", "c", "sym2p", "ser2p", "par2p", "rfs3p", "lshift", "rshift",
               "shift"):
        v = op.value
    elif k == "ser3p":
        v, w = op.value
    elif k == "t":
        v = op.initial_value
    elif k == "mad":
        v = int(bool(op.do_add))
    elif k == "mads":
        v, w = int(bool(op.is_add)), int(bool(op.do_addsub))
    elif k in ("r2difbfly", "r2ditbfly"):
        v = op.w
    elif k == "r2tfbfly":
        v, w = op.w0, op.w1
    return v, w, j, so, sh


class NotClosed(Exception):
    """A connection of the real graph leads to an operation outside it."""


def of_sfg(sfg, m, ops=None):
    """The graph of a real (possibly nested) SFG, read through ports and signals.

    ``ops``: if given, a list that receives the operation of every node.
    """
    from b_asic import SFG, Input, Output

    nodes, idx = [], {}
    subs = []  # (sfg, enclosing operation or None)

    def collect(g, top):
        for o in g.operations:
            if isinstance(o, SFG):
                collect(o, False)
                subs.append(o)
            elif top or not isinstance(o, (Input, Output)):
                idx[id(o)] = len(nodes) + 1
                nodes.append(_node(str(o.type_name()), *params(o)[:2], m, *params(o)[2:]))
                if ops is not None:
                    ops.append(o)
                keep.append(o)

    keep = []
    collect(sfg, True)
    for o in sfg.input_operations:  # inputs that feed nothing
        if id(o) not in idx:
            idx[id(o)] = len(nodes) + 1
            nodes.append(_node("in", 0, 0, m))
            if ops is not None:
                ops.append(o)
            keep.append(o)
    inner_in = {id(i): (s, k) for s in subs for k, i in enumerate(s.input_operations)}

    def resolve(port):
        if not port.signals:
            return [0, 0]
        src = port.signals[0].source
        if src is None:
            return [0, 0]
        o = src.operation
        if isinstance(o, SFG):
            return resolve(o.output_operations[src.index].input(0))
        if id(o) in inner_in:
            s, k = inner_in[id(o)]
            return resolve(s.input(k))
        return [idx.get(id(o), 0), src.index + 1]

    for o in keep:
        nodes[idx[id(o)] - 1]["src"] = [resolve(p) for p in o.inputs]
    return finish(nodes, [idx[id(o)] for o in sfg.input_operations],
                  [idx[id(o)] for o in sfg.output_operations], m)


def random_x(rng, n_in, length, m, cplx=False):
    """Input values (Python numbers) by time."""
    def one():
        if m and cplx:
            return complex(rng.randint(-4, 4), rng.randint(-4, 4))
        if m and rng.random() < 0.3:
            return rng.randint(-8, 8) / 4
        return rng.randint(-4, 4)
    return [[one() for _ in range(n_in)] for _ in range(length)]


def _mf(x):
    """(magnitude bound, number of fractional bits) of a dyadic complex number."""
    x = complex(x)
    f = 0
    for r in (x.real, x.imag):
        f = max(f, r.as_integer_ratio()[1].bit_length() - 1)
    return abs(x.real) + abs(x.imag), f


def safe_length(g, raws, length, xmax=8.0, xfrac=2, bits=47):
    """Number of iterations for which all values are certainly exact.

    Upper bounds of magnitude and precision of all values are propagated: in the
    integer domain values must stay below 2^27, otherwise every value must be
    representable in double precision.
    """
    nodes = g["nodes"]
    if _topo(nodes) is None:
        return 0
    limit = (1 << 27) if not g["m"] else None

    def mul(a, b):
        return a[0] * b[0], a[1] + b[1]

    def add(*xs):
        return sum(x[0] for x in xs), max(x[1] for x in xs)

    st = {i + 1: _mf(raws[i].get("v", 0)) for i, n in enumerate(nodes) if n["k"] == "t"}
    for t in range(length):
        val = {i: v for i, v in st.items()}
        for i in g["order"]:
            n, raw = nodes[i - 1], raws[i - 1]
            k = n["k"]
            if k == "t":
                continue
            a = [val[s] for s, _ in n["src"]]
            v, w = raw.get("v", 0), raw.get("w", 0)
            if k == "in":
                r = (xmax, xfrac if g["m"] else 0)
            elif k in ("cmul", "c"):
                r = mul(_mf(v), a[0]) if a else _mf(v)
            elif k in ("lshift", "rshift", "shift"):
                r = (a[0][0] * 2 ** abs(v), a[0][1] + (abs(v) if k != "lshift" else 0))
            elif k == "mul":
                r = mul(a[0], a[1])
            elif k == "mad":
                r = add(mul(a[0], a[1]), a[2])
            elif k == "mads":
                r = add(a[0], mul(a[1], a[2]))
            elif k in ("sym2p", "ser2p", "par2p", "ser3p", "rfs3p", "r2difbfly",
                       "r2ditbfly", "r2tfbfly"):
                s = add(*a)
                c = add(_mf(v), _mf(w), (2, 0))
                r = mul((2 * s[0], s[1]), c)
            elif a:
                r = add(*a)
                r = (r[0], r[1] + n["so"] + n["sh"])
            else:
                r = (0, 0)
            if ((limit and r[0] > limit) or r[1] > 60 or r[0] > 1e18
                    or r[0] * 2.0 ** r[1] > 2.0 ** bits):
                return t
            val[i] = r
        st = {i: val[nodes[i - 1]["src"][0][0]] for i in st}
    return length
